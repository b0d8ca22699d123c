From fb62daa96e16d166637113b7e28397d1a245029f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:22 +0000
Subject: [PATCH 01/12] fix: mark only invocations of complete pattern
 occurrences as verified

When a pattern of several sequences matched only in part at the end of the
history, the invocations of the unfinished occurrence were marked as verified
and hidden from VerifyNoOtherInvocations.
---
 include/fakeit/MatchAnalysis.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fakeit/MatchAnalysis.hpp b/include/fakeit/MatchAnalysis.hpp
index 8cac066..85c5184 100644
--- a/include/fakeit/MatchAnalysis.hpp
+++ b/include/fakeit/MatchAnalysis.hpp
@@ -46,14 +46,17 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            // an occurrence counts only when the whole pattern was found.
+            std::vector<Invocation *> currentMatch;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, currentMatch, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), currentMatch.begin(), currentMatch.end());
             end = startSearchIndex;
             return true;
         }
-- 
2.43.0


From 54b2ce51bb825deb9c39fe997656682b766c0153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:44 +0000
Subject: [PATCH 02/12] fix: let AtLeast(0) accept any number of invocations

AtLeast(n) was passed on as -n, and -0 was read as Exactly(0).
---
 include/fakeit/SequenceVerificationProgress.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/fakeit/SequenceVerificationProgress.hpp b/include/fakeit/SequenceVerificationProgress.hpp
index 0c12d3a..8d57a07 100644
--- a/include/fakeit/SequenceVerificationProgress.hpp
+++ b/include/fakeit/SequenceVerificationProgress.hpp
@@ -112,6 +112,9 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
-- 
2.43.0


From a05da52a1ad852a948523221328301b96cb8a28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:04 +0000
Subject: [PATCH 03/12] fix: keep unused method ids distinct after Reset

Reset filled the method id table with 0, which is the id of the destructor.
Stubbing the destructor after Reset made a later delete pick the wrong slot
and crash.
---
 include/mockutils/DynamicProxy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mockutils/DynamicProxy.hpp b/include/mockutils/DynamicProxy.hpp
index 0d06a71..f7cea28 100644
--- a/include/mockutils/DynamicProxy.hpp
+++ b/include/mockutils/DynamicProxy.hpp
@@ -93,7 +93,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
-- 
2.43.0


From db7dc382d73d8fdd46fa3ff261f518ed3951256f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:53 +0000
Subject: [PATCH 04/12] fix: run each recorded action exactly the stated number
 of times

A call made from inside a running action was answered by that same action
again, because a used up action was only retired after it returned. Running it
a second time pushed its counter below zero, after which it never expired.
The same happened to an action recorded for 0 times.
---
 include/fakeit/ActionSequence.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/fakeit/ActionSequence.hpp b/include/fakeit/ActionSequence.hpp
index b1f6018..432e8f4 100644
--- a/include/fakeit/ActionSequence.hpp
+++ b/include/fakeit/ActionSequence.hpp
@@ -16,7 +16,6 @@
 #include "fakeit/invocation_matchers.hpp"
 #include "fakeit/ActualInvocationHandler.hpp"
 
-#include "mockutils/Finally.hpp"
 #include "mockutils/MethodInvocationHandler.hpp"
 
 namespace fakeit {
@@ -39,18 +38,15 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+            // retire used up actions before the next one runs, so that a call made by
+            // a running action already gets the action that follows it.
+            while (frontAction().isDone())
+            {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
-            Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
-            std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
-            };
-            Finally onExit(finallyClause);
-            return action.invoke(args);
+            return frontAction().invoke(args);
         }
 
     private:
@@ -72,6 +68,10 @@ namespace fakeit {
             }
         };
 
+        Action<R, arglist...> &frontAction() {
+            return dynamic_cast<Action<R, arglist...> &>(*_recordedActions.front());
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
-- 
2.43.0


From 98789f0770b2fbb5df7f3b0e8400f2454bd35874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:11 +0000
Subject: [PATCH 05/12] fix: keep stubbed data members when clearing the
 invocation history

ClearInvocationHistory zeroed the memory of stubbed data members. Their values
were lost, and members such as vectors leaked their storage.
---
 include/fakeit/MockImpl.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/fakeit/MockImpl.hpp b/include/fakeit/MockImpl.hpp
index c8d6e35..cc72ae6 100644
--- a/include/fakeit/MockImpl.hpp
+++ b/include/fakeit/MockImpl.hpp
@@ -72,7 +72,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
-- 
2.43.0


From fb516d0fe6917055ca9136b521bf81d8d6085df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:27 +0000
Subject: [PATCH 06/12] fix: do not leak argument matchers when creating a
 later one throws

The matchers collected so far were only owned by raw pointers, so they were
lost when copying an expected value threw an exception.
---
 include/fakeit/MethodMockingContext.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/fakeit/MethodMockingContext.hpp b/include/fakeit/MethodMockingContext.hpp
index bf1db0b..798827c 100644
--- a/include/fakeit/MethodMockingContext.hpp
+++ b/include/fakeit/MethodMockingContext.hpp
@@ -256,8 +256,15 @@ namespace fakeit {
         ::type setMatchingCriteria(matcherCreators &&... matcherCreator) {
             std::vector<Destructible *> matchers;
 
-            MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                MatchersCollector<0, arglist...> c(matchers);
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+                for (auto matcher : matchers) {
+                    delete matcher;
+                }
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
-- 
2.43.0


From 6587e629e9dc5264725ec53cfe3dcc35afb482dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:43 +0000
Subject: [PATCH 07/12] fix: keep a method spied when preparing the original
 call runs out of memory

The original method was put back before the object that restores the spy was
created. When its allocation failed the method stayed unspied from then on.
Finally now tolerates having been moved from.
---
 include/mockutils/DynamicProxy.hpp | 5 +++--
 include/mockutils/Finally.hpp      | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/mockutils/DynamicProxy.hpp b/include/mockutils/DynamicProxy.hpp
index f7cea28..e7fbd8e 100644
--- a/include/mockutils/DynamicProxy.hpp
+++ b/include/mockutils/DynamicProxy.hpp
@@ -180,10 +180,11 @@ namespace fakeit {
             auto fakeMethod = getFake().getVirtualTable().getMethod(offset);
             auto originalMethod = getOriginalVT().getMethod(offset);
 
-            getFake().setMethod(offset, originalMethod);
-            return Finally{[&, offset, fakeMethod](){
+            Finally restoreFakeMethod{[&, offset, fakeMethod](){
                 getFake().setMethod(offset, fakeMethod);
             }};
+            getFake().setMethod(offset, originalMethod);
+            return restoreFakeMethod;
         }
 
     private:
diff --git a/include/mockutils/Finally.hpp b/include/mockutils/Finally.hpp
index cf227fb..f67498b 100644
--- a/include/mockutils/Finally.hpp
+++ b/include/mockutils/Finally.hpp
@@ -30,7 +30,9 @@ namespace fakeit {
         }
 
         ~Finally() {
-            _finallyClause();
+            if (_finallyClause) {
+                _finallyClause();
+            }
         }
     };
 }
-- 
2.43.0


From 5a02efaaf1eeef67a967f3e69b90784e18b2dcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:45 +0000
Subject: [PATCH 08/12] fix: naming a method without stubbing it no longer
 redirects its calls

Mentioning a method in Verify, VerifyNoOtherInvocations or in a stubbing phrase
that never completes replaced its slot in the virtual table. On a spied object
the method then threw an unexpected call exception instead of running the
object's own code, and a mentioned destructor threw from delete. The slot is
now replaced when the first stubbing of the method is recorded.
---
 include/fakeit/MockImpl.hpp        | 18 ++++++++++---
 include/mockutils/DynamicProxy.hpp | 41 ++++++++++++++++++++++--------
 2 files changed, 45 insertions(+), 14 deletions(-)

diff --git a/include/fakeit/MockImpl.hpp b/include/fakeit/MockImpl.hpp
index cc72ae6..69cf452 100644
--- a/include/fakeit/MockImpl.hpp
+++ b/include/fakeit/MockImpl.hpp
@@ -134,6 +134,8 @@ namespace fakeit {
 
             virtual RecordedMethodBody<R, arglist...> &getRecordedMethodBody() = 0;
 
+            virtual void bindMethod() = 0;
+
         public:
             MethodMockingContextBase(MockImpl<C, baseclasses...> &mock) : _mock(mock) { }
 
@@ -142,6 +144,7 @@ namespace fakeit {
             void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
                 ActualInvocationHandler<R, arglist...> *invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
+                bindMethod();
             }
 
             void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) {
@@ -218,11 +221,16 @@ namespace fakeit {
         protected:
 
             virtual RecordedMethodBody<R, arglist...> &getRecordedMethodBody() override {
-                return MethodMockingContextBase<R, arglist...>::_mock.template stubMethodIfNotStubbed<id>(
+                return MethodMockingContextBase<R, arglist...>::_mock.stubMethodIfNotStubbed(
                         MethodMockingContextBase<R, arglist...>::_mock._proxy,
                         MethodMockingContextImpl<R, arglist...>::_vMethod);
             }
 
+            virtual void bindMethod() override {
+                MethodMockingContextBase<R, arglist...>::_mock._proxy.template bindMethod<id>(
+                        MethodMockingContextImpl<R, arglist...>::_vMethod);
+            }
+
         public:
 
             UniqueMethodMockingContextImpl(MockImpl<C, baseclasses...> &mock, R (C::*vMethod)(arglist...))
@@ -239,6 +247,10 @@ namespace fakeit {
                         MethodMockingContextBase<void>::_mock._proxy);
             }
 
+            virtual void bindMethod() override {
+                MethodMockingContextBase<void>::_mock._proxy.bindDtor();
+            }
+
         public:
             virtual ~DtorMockingContextImpl() = default;
 
@@ -310,11 +322,11 @@ namespace fakeit {
             return origMethodPtr;
         }
 
-        template<unsigned int id, typename R, typename ... arglist>
+        template<typename R, typename ... arglist>
         RecordedMethodBody<R, arglist...> &stubMethodIfNotStubbed(DynamicProxy<C, baseclasses...> &proxy,
                                                                   R (C::*vMethod)(arglist...)) {
             if (!proxy.isMethodStubbed(vMethod)) {
-                proxy.template stubMethod<id>(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
+                proxy.stubMethod(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
             }
             Destructible *d = proxy.getMethodMock(vMethod);
             RecordedMethodBody<R, arglist...> *methodMock = dynamic_cast<RecordedMethodBody<R, arglist...> *>(d);
diff --git a/include/mockutils/DynamicProxy.hpp b/include/mockutils/DynamicProxy.hpp
index e7fbd8e..ab94639 100644
--- a/include/mockutils/DynamicProxy.hpp
+++ b/include/mockutils/DynamicProxy.hpp
@@ -101,15 +101,32 @@ namespace fakeit {
         {
         }
 
-        template<int id, typename R, typename ... arglist>
+        template<typename R, typename ... arglist>
         void stubMethod(R(C::*vMethod)(arglist...), MethodInvocationHandler<R, arglist...> *methodInvocationHandler) {
+            _methodMocks[VTUtils::getOffset(vMethod)].reset(methodInvocationHandler);
+        }
+
+        void stubDtor(MethodInvocationHandler<void> *methodInvocationHandler) {
+            _methodMocks[VTUtils::getDestructorOffset<C>()].reset(methodInvocationHandler);
+        }
+
+        /**
+         * Redirect calls of the method to its invocation handler.
+         */
+        template<int id, typename R, typename ... arglist>
+        void bindMethod(R(C::*vMethod)(arglist...)) {
             auto offset = VTUtils::getOffset(vMethod);
             MethodProxyCreator<R, arglist...> creator;
-            bind(creator.template createMethodProxy<id + 1>(offset), methodInvocationHandler);
+            if (!isBinded(offset)) {
+                bind(creator.template createMethodProxy<id + 1>(offset));
+            }
         }
 
-        void stubDtor(MethodInvocationHandler<void> *methodInvocationHandler) {
+        void bindDtor() {
             auto offset = VTUtils::getDestructorOffset<C>();
+            if (isBinded(offset)) {
+                return;
+            }
             MethodProxyCreator<void> creator;
             // MSVC use an indirection for destructors, the "initial" destructor (VirtualTable::dtor, an helper) will be
             // called through a member-function call, but the "final" destructor (the method proxy) will be called through
@@ -118,21 +135,21 @@ namespace fakeit {
             // For GCC / Clang, the destructor is directly called, like normal methods, so we use the member-function
             // version.
 #ifdef _MSC_VER
-            bindDtor(creator.createMethodProxyStatic<0>(offset), methodInvocationHandler);
+            bindDtor(creator.createMethodProxyStatic<0>(offset));
 #else
-            bindDtor(creator.createMethodProxy<0>(offset), methodInvocationHandler);
+            bindDtor(creator.createMethodProxy<0>(offset));
 #endif
         }
 
         template<typename R, typename ... arglist>
         bool isMethodStubbed(R(C::*vMethod)(arglist...)) {
             unsigned int offset = VTUtils::getOffset(vMethod);
-            return isBinded(offset);
+            return isStubbed(offset);
         }
 
         bool isDtorStubbed() {
             unsigned int offset = VTUtils::getDestructorOffset<C>();
-            return isBinded(offset);
+            return isStubbed(offset);
         }
 
         template<typename R, typename ... arglist>
@@ -220,15 +237,13 @@ namespace fakeit {
             return reinterpret_cast<FakeObject<C, baseclasses...> &>(instance);
         }
 
-        void bind(const MethodProxy &methodProxy, Destructible *invocationHandler) {
+        void bind(const MethodProxy &methodProxy) {
             getFake().setMethod(methodProxy.getOffset(), methodProxy.getProxy());
-            _methodMocks[methodProxy.getOffset()].reset(invocationHandler);
             _offsets[methodProxy.getOffset()] = methodProxy.getId();
         }
 
-        void bindDtor(const MethodProxy &methodProxy, Destructible *invocationHandler) {
+        void bindDtor(const MethodProxy &methodProxy) {
             getFake().setDtor(methodProxy.getProxy());
-            _methodMocks[methodProxy.getOffset()].reset(invocationHandler);
             _offsets[methodProxy.getOffset()] = methodProxy.getId();
         }
 
@@ -251,6 +266,10 @@ namespace fakeit {
         }
 
         bool isBinded(unsigned int offset) {
+            return _offsets[offset] != std::numeric_limits<int>::max();
+        }
+
+        bool isStubbed(unsigned int offset) {
             std::shared_ptr<Destructible> ptr = _methodMocks[offset];
             return ptr.get() != nullptr;
         }
-- 
2.43.0


From 4fecc2af383e3b8563c4a1c18c5cf64905af1695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:19 +0000
Subject: [PATCH 09/12] fix: report unstubbed calls of methods that return
 class objects

Calling an unstubbed method of a fake crashed when the method returns
a class type by value.  The stand-in for unstubbed methods read its
'this' pointer, which is the address of the result in that case.  It now
takes the reporting context from where the fakes are created.
---
 include/fakeit/MockImpl.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/fakeit/MockImpl.hpp b/include/fakeit/MockImpl.hpp
index 69cf452..78756f5 100644
--- a/include/fakeit/MockImpl.hpp
+++ b/include/fakeit/MockImpl.hpp
@@ -7,6 +7,7 @@
  */
 #pragma once
 
+#include <atomic>
 #include <type_traits>
 #include <unordered_set>
 
@@ -35,6 +36,7 @@ namespace fakeit {
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
             FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
             fake->getVirtualTable().setCookie(1, this);
+            fakesContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -281,10 +283,17 @@ namespace fakeit {
 
 		void unmockedDtor() {}
 
+        static std::atomic<FakeitContext *> &fakesContext() {
+            static std::atomic<FakeitContext *> context{nullptr};
+            return context;
+        }
+
+        // Stands in for methods of any return type. 'this' must not be used: where the result is returned
+        // through a hidden first argument, it is the address of the result and not that of the fake.
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            FakeitContext &fakeit = *fakesContext().load();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
-- 
2.43.0


From aebac953fcbd630761f9c2b08497042cdc4e1736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:37 +0000
Subject: [PATCH 10/12] fix: keep the ids of methods named in different
 translation units apart

A mock finds the handler of a called method by an id taken from __COUNTER__,
which starts again in every translation unit.  Two methods of one mock named
first in different translation units could get the same id, and calls of one
were answered by the stubbings of the other.  The id now also depends on the
name of the method.
---
 include/fakeit/api_macros.hpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/include/fakeit/api_macros.hpp b/include/fakeit/api_macros.hpp
index 4f099a9..0e675f8 100644
--- a/include/fakeit/api_macros.hpp
+++ b/include/fakeit/api_macros.hpp
@@ -4,6 +4,24 @@
 #define __func__ __FUNCTION__
 #endif
 
+namespace fakeit {
+    constexpr unsigned int textHash(const char *text, unsigned int begin, unsigned int end) {
+        return end - begin < 2
+               ? static_cast<unsigned char>(text[begin])
+               : textHash(text, begin, begin + (end - begin) / 2) * 1000003u
+                 ^ textHash(text, begin + (end - begin) / 2, end) * 2654435761u;
+    }
+
+    // __COUNTER__ starts again in every translation unit. The name of the method keeps the ids of two methods of
+    // one mock apart when they are named in different translation units.
+    constexpr int methodId(unsigned int hash, unsigned int counter) {
+        return static_cast<int>((hash + counter) & 0x3fffffffu);
+    }
+}
+
+#define FAKEIT_METHOD_ID(text) \
+    fakeit::methodId(fakeit::textHash(text, 0, sizeof(text)), __COUNTER__)
+
 #define MOCK_TYPE(mock) \
     std::remove_reference<decltype((mock).get())>::type
 
@@ -29,25 +47,25 @@
     (mock).dtor().setMethodDetails(#mock,"destructor")
 
 #define Method(mock, method) \
-    (mock).template stub<__COUNTER__>(&MOCK_TYPE(mock)::method).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method)>(&MOCK_TYPE(mock)::method).setMethodDetails(#mock,#method)
 
 #define OverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " " #prototype)>(OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const " #prototype)>(CONST_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define RefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " & " #prototype)>(REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const& " #prototype)>(CONST_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define RValRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " && " #prototype)>(R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstRValRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const&& " #prototype)>(CONST_R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define Verify(...) \
         Verify( __VA_ARGS__ ).setFileInfo(__FILE__, __LINE__, __func__)
-- 
2.43.0


From b62e3e77fdfed94a0bc883fa61fa4d2b7e1f4880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:47 +0000
Subject: [PATCH 11/12] fix: use the custom event formatter with Catch

The adapter of the Catch configuration kept a reference to the default
formatter. A formatter set with Fakeit.setCustomEventFormatter was therefore
ignored. Hand the adapter the context, which selects the formatter in force,
as the other configurations do.
---
 config/catch/CatchFakeit.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/catch/CatchFakeit.hpp b/config/catch/CatchFakeit.hpp
index 616a369..1261961 100644
--- a/config/catch/CatchFakeit.hpp
+++ b/config/catch/CatchFakeit.hpp
@@ -92,7 +92,7 @@ namespace fakeit {
 
         virtual ~CatchFakeit() = default;
 
-        CatchFakeit() : _formatter(), _catchAdapter(_formatter) {}
+        CatchFakeit() : _formatter(), _catchAdapter(*this) {}
 
         static CatchFakeit &getInstance() {
             static CatchFakeit instance;
-- 
2.43.0


From 0e9d43efc2394a24b61fb29b8ef1882e25134930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:51:51 +0000
Subject: [PATCH 12/12] fix: bring the single headers in step with the sources

The files under single_header did not contain the repairs made to the
headers under include and config. They are regenerated with
generate_fakeit_single_header.py; nothing else changes.
---
 single_header/boost/fakeit.hpp      | 156 +++++++++++++++++++--------
 single_header/catch/fakeit.hpp      | 158 ++++++++++++++++++++--------
 single_header/cute/fakeit.hpp       | 156 +++++++++++++++++++--------
 single_header/doctest/fakeit.hpp    | 156 +++++++++++++++++++--------
 single_header/gtest/fakeit.hpp      | 156 +++++++++++++++++++--------
 single_header/mettle/fakeit.hpp     | 156 +++++++++++++++++++--------
 single_header/mstest/fakeit.hpp     | 156 +++++++++++++++++++--------
 single_header/nunit/fakeit.hpp      | 156 +++++++++++++++++++--------
 single_header/qtest/fakeit.hpp      | 156 +++++++++++++++++++--------
 single_header/standalone/fakeit.hpp | 156 +++++++++++++++++++--------
 single_header/tpunit/fakeit.hpp     | 156 +++++++++++++++++++--------
 11 files changed, 1255 insertions(+), 463 deletions(-)

diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index 06536e0..298449c 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2024-10-06 20:50:22.200164
+ *  Generated: 2026-11-16 09:51:44.036844
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -1240,6 +1240,7 @@ namespace fakeit {
 static fakeit::DefaultFakeit& Fakeit = fakeit::BoostTestFakeit::getInstance();
 
 
+#include <atomic>
 #include <type_traits>
 #include <unordered_set>
 
@@ -5905,7 +5906,9 @@ namespace fakeit {
         }
 
         ~Finally() {
-            _finallyClause();
+            if (_finallyClause) {
+                _finallyClause();
+            }
         }
     };
 }
@@ -6074,7 +6077,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6082,15 +6085,30 @@ namespace fakeit {
         {
         }
 
-        template<int id, typename R, typename ... arglist>
+        template<typename R, typename ... arglist>
         void stubMethod(R(C::*vMethod)(arglist...), MethodInvocationHandler<R, arglist...> *methodInvocationHandler) {
+            _methodMocks[VTUtils::getOffset(vMethod)].reset(methodInvocationHandler);
+        }
+
+        void stubDtor(MethodInvocationHandler<void> *methodInvocationHandler) {
+            _methodMocks[VTUtils::getDestructorOffset<C>()].reset(methodInvocationHandler);
+        }
+
+
+        template<int id, typename R, typename ... arglist>
+        void bindMethod(R(C::*vMethod)(arglist...)) {
             auto offset = VTUtils::getOffset(vMethod);
             MethodProxyCreator<R, arglist...> creator;
-            bind(creator.template createMethodProxy<id + 1>(offset), methodInvocationHandler);
+            if (!isBinded(offset)) {
+                bind(creator.template createMethodProxy<id + 1>(offset));
+            }
         }
 
-        void stubDtor(MethodInvocationHandler<void> *methodInvocationHandler) {
+        void bindDtor() {
             auto offset = VTUtils::getDestructorOffset<C>();
+            if (isBinded(offset)) {
+                return;
+            }
             MethodProxyCreator<void> creator;
 
 
@@ -6099,21 +6117,21 @@ namespace fakeit {
 
 
 #ifdef _MSC_VER
-            bindDtor(creator.createMethodProxyStatic<0>(offset), methodInvocationHandler);
+            bindDtor(creator.createMethodProxyStatic<0>(offset));
 #else
-            bindDtor(creator.createMethodProxy<0>(offset), methodInvocationHandler);
+            bindDtor(creator.createMethodProxy<0>(offset));
 #endif
         }
 
         template<typename R, typename ... arglist>
         bool isMethodStubbed(R(C::*vMethod)(arglist...)) {
             unsigned int offset = VTUtils::getOffset(vMethod);
-            return isBinded(offset);
+            return isStubbed(offset);
         }
 
         bool isDtorStubbed() {
             unsigned int offset = VTUtils::getDestructorOffset<C>();
-            return isBinded(offset);
+            return isStubbed(offset);
         }
 
         template<typename R, typename ... arglist>
@@ -6161,10 +6179,11 @@ namespace fakeit {
             auto fakeMethod = getFake().getVirtualTable().getMethod(offset);
             auto originalMethod = getOriginalVT().getMethod(offset);
 
-            getFake().setMethod(offset, originalMethod);
-            return Finally{[&, offset, fakeMethod](){
+            Finally restoreFakeMethod{[&, offset, fakeMethod](){
                 getFake().setMethod(offset, fakeMethod);
             }};
+            getFake().setMethod(offset, originalMethod);
+            return restoreFakeMethod;
         }
 
     private:
@@ -6200,15 +6219,13 @@ namespace fakeit {
             return reinterpret_cast<FakeObject<C, baseclasses...> &>(instance);
         }
 
-        void bind(const MethodProxy &methodProxy, Destructible *invocationHandler) {
+        void bind(const MethodProxy &methodProxy) {
             getFake().setMethod(methodProxy.getOffset(), methodProxy.getProxy());
-            _methodMocks[methodProxy.getOffset()].reset(invocationHandler);
             _offsets[methodProxy.getOffset()] = methodProxy.getId();
         }
 
-        void bindDtor(const MethodProxy &methodProxy, Destructible *invocationHandler) {
+        void bindDtor(const MethodProxy &methodProxy) {
             getFake().setDtor(methodProxy.getProxy());
-            _methodMocks[methodProxy.getOffset()].reset(invocationHandler);
             _offsets[methodProxy.getOffset()] = methodProxy.getId();
         }
 
@@ -6231,6 +6248,10 @@ namespace fakeit {
         }
 
         bool isBinded(unsigned int offset) {
+            return _offsets[offset] != std::numeric_limits<int>::max();
+        }
+
+        bool isStubbed(unsigned int offset) {
             std::shared_ptr<Destructible> ptr = _methodMocks[offset];
             return ptr.get() != nullptr;
         }
@@ -8031,18 +8052,15 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (frontAction().isDone())
+            {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
-            Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
-            std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
-            };
-            Finally onExit(finallyClause);
-            return action.invoke(args);
+            return frontAction().invoke(args);
         }
 
     private:
@@ -8064,6 +8082,10 @@ namespace fakeit {
             }
         };
 
+        Action<R, arglist...> &frontAction() {
+            return dynamic_cast<Action<R, arglist...> &>(*_recordedActions.front());
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
@@ -8417,8 +8439,15 @@ namespace fakeit {
         ::type setMatchingCriteria(matcherCreators &&... matcherCreator) {
             std::vector<Destructible *> matchers;
 
-            MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                MatchersCollector<0, arglist...> c(matchers);
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+                for (auto matcher : matchers) {
+                    delete matcher;
+                }
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
@@ -8585,6 +8614,7 @@ namespace fakeit {
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
             FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
             fake->getVirtualTable().setCookie(1, this);
+            fakesContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8620,7 +8650,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8683,6 +8712,8 @@ namespace fakeit {
 
             virtual RecordedMethodBody<R, arglist...> &getRecordedMethodBody() = 0;
 
+            virtual void bindMethod() = 0;
+
         public:
             MethodMockingContextBase(MockImpl<C, baseclasses...> &mock) : _mock(mock) { }
 
@@ -8691,6 +8722,7 @@ namespace fakeit {
             void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
                 ActualInvocationHandler<R, arglist...> *invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
+                bindMethod();
             }
 
             void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) {
@@ -8767,11 +8799,16 @@ namespace fakeit {
         protected:
 
             virtual RecordedMethodBody<R, arglist...> &getRecordedMethodBody() override {
-                return MethodMockingContextBase<R, arglist...>::_mock.template stubMethodIfNotStubbed<id>(
+                return MethodMockingContextBase<R, arglist...>::_mock.stubMethodIfNotStubbed(
                         MethodMockingContextBase<R, arglist...>::_mock._proxy,
                         MethodMockingContextImpl<R, arglist...>::_vMethod);
             }
 
+            virtual void bindMethod() override {
+                MethodMockingContextBase<R, arglist...>::_mock._proxy.template bindMethod<id>(
+                        MethodMockingContextImpl<R, arglist...>::_vMethod);
+            }
+
         public:
 
             UniqueMethodMockingContextImpl(MockImpl<C, baseclasses...> &mock, R (C::*vMethod)(arglist...))
@@ -8788,6 +8825,10 @@ namespace fakeit {
                         MethodMockingContextBase<void>::_mock._proxy);
             }
 
+            virtual void bindMethod() override {
+                MethodMockingContextBase<void>::_mock._proxy.bindDtor();
+            }
+
         public:
             virtual ~DtorMockingContextImpl() = default;
 
@@ -8818,10 +8859,17 @@ namespace fakeit {
 
 		void unmockedDtor() {}
 
+        static std::atomic<FakeitContext *> &fakesContext() {
+            static std::atomic<FakeitContext *> context{nullptr};
+            return context;
+        }
+
+
+
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            FakeitContext &fakeit = *fakesContext().load();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -8859,11 +8907,11 @@ namespace fakeit {
             return origMethodPtr;
         }
 
-        template<unsigned int id, typename R, typename ... arglist>
+        template<typename R, typename ... arglist>
         RecordedMethodBody<R, arglist...> &stubMethodIfNotStubbed(DynamicProxy<C, baseclasses...> &proxy,
                                                                   R (C::*vMethod)(arglist...)) {
             if (!proxy.isMethodStubbed(vMethod)) {
-                proxy.template stubMethod<id>(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
+                proxy.stubMethod(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
             }
             Destructible *d = proxy.getMethodMock(vMethod);
             RecordedMethodBody<R, arglist...> *methodMock = dynamic_cast<RecordedMethodBody<R, arglist...> *>(d);
@@ -9379,14 +9427,17 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+
+            std::vector<Invocation *> currentMatch;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, currentMatch, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), currentMatch.begin(), currentMatch.end());
             end = startSearchIndex;
             return true;
         }
@@ -9696,6 +9747,9 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
@@ -10102,6 +10156,24 @@ namespace fakeit {
 #define __func__ __FUNCTION__
 #endif
 
+namespace fakeit {
+    constexpr unsigned int textHash(const char *text, unsigned int begin, unsigned int end) {
+        return end - begin < 2
+               ? static_cast<unsigned char>(text[begin])
+               : textHash(text, begin, begin + (end - begin) / 2) * 1000003u
+                 ^ textHash(text, begin + (end - begin) / 2, end) * 2654435761u;
+    }
+
+
+
+    constexpr int methodId(unsigned int hash, unsigned int counter) {
+        return static_cast<int>((hash + counter) & 0x3fffffffu);
+    }
+}
+
+#define FAKEIT_METHOD_ID(text) \
+    fakeit::methodId(fakeit::textHash(text, 0, sizeof(text)), __COUNTER__)
+
 #define MOCK_TYPE(mock) \
     std::remove_reference<decltype((mock).get())>::type
 
@@ -10127,25 +10199,25 @@ namespace fakeit {
     (mock).dtor().setMethodDetails(#mock,"destructor")
 
 #define Method(mock, method) \
-    (mock).template stub<__COUNTER__>(&MOCK_TYPE(mock)::method).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method)>(&MOCK_TYPE(mock)::method).setMethodDetails(#mock,#method)
 
 #define OverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " " #prototype)>(OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const " #prototype)>(CONST_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define RefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " & " #prototype)>(REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const& " #prototype)>(CONST_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define RValRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " && " #prototype)>(R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstRValRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const&& " #prototype)>(CONST_R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define Verify(...) \
         Verify( __VA_ARGS__ ).setFileInfo(__FILE__, __LINE__, __func__)
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index 1f35224..0018578 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2024-10-06 20:50:22.219617
+ *  Generated: 2026-11-16 09:51:44.010078
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -1250,7 +1250,7 @@ namespace fakeit {
 
         virtual ~CatchFakeit() = default;
 
-        CatchFakeit() : _formatter(), _catchAdapter(_formatter) {}
+        CatchFakeit() : _formatter(), _catchAdapter(*this) {}
 
         static CatchFakeit &getInstance() {
             static CatchFakeit instance;
@@ -1278,6 +1278,7 @@ namespace fakeit {
 static fakeit::DefaultFakeit& Fakeit = fakeit::CatchFakeit::getInstance();
 
 
+#include <atomic>
 #include <type_traits>
 #include <unordered_set>
 
@@ -5943,7 +5944,9 @@ namespace fakeit {
         }
 
         ~Finally() {
-            _finallyClause();
+            if (_finallyClause) {
+                _finallyClause();
+            }
         }
     };
 }
@@ -6112,7 +6115,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6120,15 +6123,30 @@ namespace fakeit {
         {
         }
 
-        template<int id, typename R, typename ... arglist>
+        template<typename R, typename ... arglist>
         void stubMethod(R(C::*vMethod)(arglist...), MethodInvocationHandler<R, arglist...> *methodInvocationHandler) {
+            _methodMocks[VTUtils::getOffset(vMethod)].reset(methodInvocationHandler);
+        }
+
+        void stubDtor(MethodInvocationHandler<void> *methodInvocationHandler) {
+            _methodMocks[VTUtils::getDestructorOffset<C>()].reset(methodInvocationHandler);
+        }
+
+
+        template<int id, typename R, typename ... arglist>
+        void bindMethod(R(C::*vMethod)(arglist...)) {
             auto offset = VTUtils::getOffset(vMethod);
             MethodProxyCreator<R, arglist...> creator;
-            bind(creator.template createMethodProxy<id + 1>(offset), methodInvocationHandler);
+            if (!isBinded(offset)) {
+                bind(creator.template createMethodProxy<id + 1>(offset));
+            }
         }
 
-        void stubDtor(MethodInvocationHandler<void> *methodInvocationHandler) {
+        void bindDtor() {
             auto offset = VTUtils::getDestructorOffset<C>();
+            if (isBinded(offset)) {
+                return;
+            }
             MethodProxyCreator<void> creator;
 
 
@@ -6137,21 +6155,21 @@ namespace fakeit {
 
 
 #ifdef _MSC_VER
-            bindDtor(creator.createMethodProxyStatic<0>(offset), methodInvocationHandler);
+            bindDtor(creator.createMethodProxyStatic<0>(offset));
 #else
-            bindDtor(creator.createMethodProxy<0>(offset), methodInvocationHandler);
+            bindDtor(creator.createMethodProxy<0>(offset));
 #endif
         }
 
         template<typename R, typename ... arglist>
         bool isMethodStubbed(R(C::*vMethod)(arglist...)) {
             unsigned int offset = VTUtils::getOffset(vMethod);
-            return isBinded(offset);
+            return isStubbed(offset);
         }
 
         bool isDtorStubbed() {
             unsigned int offset = VTUtils::getDestructorOffset<C>();
-            return isBinded(offset);
+            return isStubbed(offset);
         }
 
         template<typename R, typename ... arglist>
@@ -6199,10 +6217,11 @@ namespace fakeit {
             auto fakeMethod = getFake().getVirtualTable().getMethod(offset);
             auto originalMethod = getOriginalVT().getMethod(offset);
 
-            getFake().setMethod(offset, originalMethod);
-            return Finally{[&, offset, fakeMethod](){
+            Finally restoreFakeMethod{[&, offset, fakeMethod](){
                 getFake().setMethod(offset, fakeMethod);
             }};
+            getFake().setMethod(offset, originalMethod);
+            return restoreFakeMethod;
         }
 
     private:
@@ -6238,15 +6257,13 @@ namespace fakeit {
             return reinterpret_cast<FakeObject<C, baseclasses...> &>(instance);
         }
 
-        void bind(const MethodProxy &methodProxy, Destructible *invocationHandler) {
+        void bind(const MethodProxy &methodProxy) {
             getFake().setMethod(methodProxy.getOffset(), methodProxy.getProxy());
-            _methodMocks[methodProxy.getOffset()].reset(invocationHandler);
             _offsets[methodProxy.getOffset()] = methodProxy.getId();
         }
 
-        void bindDtor(const MethodProxy &methodProxy, Destructible *invocationHandler) {
+        void bindDtor(const MethodProxy &methodProxy) {
             getFake().setDtor(methodProxy.getProxy());
-            _methodMocks[methodProxy.getOffset()].reset(invocationHandler);
             _offsets[methodProxy.getOffset()] = methodProxy.getId();
         }
 
@@ -6269,6 +6286,10 @@ namespace fakeit {
         }
 
         bool isBinded(unsigned int offset) {
+            return _offsets[offset] != std::numeric_limits<int>::max();
+        }
+
+        bool isStubbed(unsigned int offset) {
             std::shared_ptr<Destructible> ptr = _methodMocks[offset];
             return ptr.get() != nullptr;
         }
@@ -8069,18 +8090,15 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (frontAction().isDone())
+            {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
-            Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
-            std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
-            };
-            Finally onExit(finallyClause);
-            return action.invoke(args);
+            return frontAction().invoke(args);
         }
 
     private:
@@ -8102,6 +8120,10 @@ namespace fakeit {
             }
         };
 
+        Action<R, arglist...> &frontAction() {
+            return dynamic_cast<Action<R, arglist...> &>(*_recordedActions.front());
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
@@ -8455,8 +8477,15 @@ namespace fakeit {
         ::type setMatchingCriteria(matcherCreators &&... matcherCreator) {
             std::vector<Destructible *> matchers;
 
-            MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                MatchersCollector<0, arglist...> c(matchers);
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+                for (auto matcher : matchers) {
+                    delete matcher;
+                }
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
@@ -8623,6 +8652,7 @@ namespace fakeit {
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
             FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
             fake->getVirtualTable().setCookie(1, this);
+            fakesContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8658,7 +8688,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8721,6 +8750,8 @@ namespace fakeit {
 
             virtual RecordedMethodBody<R, arglist...> &getRecordedMethodBody() = 0;
 
+            virtual void bindMethod() = 0;
+
         public:
             MethodMockingContextBase(MockImpl<C, baseclasses...> &mock) : _mock(mock) { }
 
@@ -8729,6 +8760,7 @@ namespace fakeit {
             void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
                 ActualInvocationHandler<R, arglist...> *invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
+                bindMethod();
             }
 
             void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) {
@@ -8805,11 +8837,16 @@ namespace fakeit {
         protected:
 
             virtual RecordedMethodBody<R, arglist...> &getRecordedMethodBody() override {
-                return MethodMockingContextBase<R, arglist...>::_mock.template stubMethodIfNotStubbed<id>(
+                return MethodMockingContextBase<R, arglist...>::_mock.stubMethodIfNotStubbed(
                         MethodMockingContextBase<R, arglist...>::_mock._proxy,
                         MethodMockingContextImpl<R, arglist...>::_vMethod);
             }
 
+            virtual void bindMethod() override {
+                MethodMockingContextBase<R, arglist...>::_mock._proxy.template bindMethod<id>(
+                        MethodMockingContextImpl<R, arglist...>::_vMethod);
+            }
+
         public:
 
             UniqueMethodMockingContextImpl(MockImpl<C, baseclasses...> &mock, R (C::*vMethod)(arglist...))
@@ -8826,6 +8863,10 @@ namespace fakeit {
                         MethodMockingContextBase<void>::_mock._proxy);
             }
 
+            virtual void bindMethod() override {
+                MethodMockingContextBase<void>::_mock._proxy.bindDtor();
+            }
+
         public:
             virtual ~DtorMockingContextImpl() = default;
 
@@ -8856,10 +8897,17 @@ namespace fakeit {
 
 		void unmockedDtor() {}
 
+        static std::atomic<FakeitContext *> &fakesContext() {
+            static std::atomic<FakeitContext *> context{nullptr};
+            return context;
+        }
+
+
+
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            FakeitContext &fakeit = *fakesContext().load();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -8897,11 +8945,11 @@ namespace fakeit {
             return origMethodPtr;
         }
 
-        template<unsigned int id, typename R, typename ... arglist>
+        template<typename R, typename ... arglist>
         RecordedMethodBody<R, arglist...> &stubMethodIfNotStubbed(DynamicProxy<C, baseclasses...> &proxy,
                                                                   R (C::*vMethod)(arglist...)) {
             if (!proxy.isMethodStubbed(vMethod)) {
-                proxy.template stubMethod<id>(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
+                proxy.stubMethod(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
             }
             Destructible *d = proxy.getMethodMock(vMethod);
             RecordedMethodBody<R, arglist...> *methodMock = dynamic_cast<RecordedMethodBody<R, arglist...> *>(d);
@@ -9417,14 +9465,17 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+
+            std::vector<Invocation *> currentMatch;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, currentMatch, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), currentMatch.begin(), currentMatch.end());
             end = startSearchIndex;
             return true;
         }
@@ -9720,6 +9771,9 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
@@ -10126,6 +10180,24 @@ namespace fakeit {
 #define __func__ __FUNCTION__
 #endif
 
+namespace fakeit {
+    constexpr unsigned int textHash(const char *text, unsigned int begin, unsigned int end) {
+        return end - begin < 2
+               ? static_cast<unsigned char>(text[begin])
+               : textHash(text, begin, begin + (end - begin) / 2) * 1000003u
+                 ^ textHash(text, begin + (end - begin) / 2, end) * 2654435761u;
+    }
+
+
+
+    constexpr int methodId(unsigned int hash, unsigned int counter) {
+        return static_cast<int>((hash + counter) & 0x3fffffffu);
+    }
+}
+
+#define FAKEIT_METHOD_ID(text) \
+    fakeit::methodId(fakeit::textHash(text, 0, sizeof(text)), __COUNTER__)
+
 #define MOCK_TYPE(mock) \
     std::remove_reference<decltype((mock).get())>::type
 
@@ -10151,25 +10223,25 @@ namespace fakeit {
     (mock).dtor().setMethodDetails(#mock,"destructor")
 
 #define Method(mock, method) \
-    (mock).template stub<__COUNTER__>(&MOCK_TYPE(mock)::method).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method)>(&MOCK_TYPE(mock)::method).setMethodDetails(#mock,#method)
 
 #define OverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " " #prototype)>(OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const " #prototype)>(CONST_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define RefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " & " #prototype)>(REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const& " #prototype)>(CONST_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define RValRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " && " #prototype)>(R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstRValRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const&& " #prototype)>(CONST_R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define Verify(...) \
         Verify( __VA_ARGS__ ).setFileInfo(__FILE__, __LINE__, __func__)
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index 6465020..0f0e0c2 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2024-10-06 20:50:22.238909
+ *  Generated: 2026-11-16 09:51:43.866667
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -1205,6 +1205,7 @@ namespace fakeit {
 static fakeit::DefaultFakeit& Fakeit = fakeit::CuteFakeit::getInstance();
 
 
+#include <atomic>
 #include <type_traits>
 #include <unordered_set>
 
@@ -5870,7 +5871,9 @@ namespace fakeit {
         }
 
         ~Finally() {
-            _finallyClause();
+            if (_finallyClause) {
+                _finallyClause();
+            }
         }
     };
 }
@@ -6039,7 +6042,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6047,15 +6050,30 @@ namespace fakeit {
         {
         }
 
-        template<int id, typename R, typename ... arglist>
+        template<typename R, typename ... arglist>
         void stubMethod(R(C::*vMethod)(arglist...), MethodInvocationHandler<R, arglist...> *methodInvocationHandler) {
+            _methodMocks[VTUtils::getOffset(vMethod)].reset(methodInvocationHandler);
+        }
+
+        void stubDtor(MethodInvocationHandler<void> *methodInvocationHandler) {
+            _methodMocks[VTUtils::getDestructorOffset<C>()].reset(methodInvocationHandler);
+        }
+
+
+        template<int id, typename R, typename ... arglist>
+        void bindMethod(R(C::*vMethod)(arglist...)) {
             auto offset = VTUtils::getOffset(vMethod);
             MethodProxyCreator<R, arglist...> creator;
-            bind(creator.template createMethodProxy<id + 1>(offset), methodInvocationHandler);
+            if (!isBinded(offset)) {
+                bind(creator.template createMethodProxy<id + 1>(offset));
+            }
         }
 
-        void stubDtor(MethodInvocationHandler<void> *methodInvocationHandler) {
+        void bindDtor() {
             auto offset = VTUtils::getDestructorOffset<C>();
+            if (isBinded(offset)) {
+                return;
+            }
             MethodProxyCreator<void> creator;
 
 
@@ -6064,21 +6082,21 @@ namespace fakeit {
 
 
 #ifdef _MSC_VER
-            bindDtor(creator.createMethodProxyStatic<0>(offset), methodInvocationHandler);
+            bindDtor(creator.createMethodProxyStatic<0>(offset));
 #else
-            bindDtor(creator.createMethodProxy<0>(offset), methodInvocationHandler);
+            bindDtor(creator.createMethodProxy<0>(offset));
 #endif
         }
 
         template<typename R, typename ... arglist>
         bool isMethodStubbed(R(C::*vMethod)(arglist...)) {
             unsigned int offset = VTUtils::getOffset(vMethod);
-            return isBinded(offset);
+            return isStubbed(offset);
         }
 
         bool isDtorStubbed() {
             unsigned int offset = VTUtils::getDestructorOffset<C>();
-            return isBinded(offset);
+            return isStubbed(offset);
         }
 
         template<typename R, typename ... arglist>
@@ -6126,10 +6144,11 @@ namespace fakeit {
             auto fakeMethod = getFake().getVirtualTable().getMethod(offset);
             auto originalMethod = getOriginalVT().getMethod(offset);
 
-            getFake().setMethod(offset, originalMethod);
-            return Finally{[&, offset, fakeMethod](){
+            Finally restoreFakeMethod{[&, offset, fakeMethod](){
                 getFake().setMethod(offset, fakeMethod);
             }};
+            getFake().setMethod(offset, originalMethod);
+            return restoreFakeMethod;
         }
 
     private:
@@ -6165,15 +6184,13 @@ namespace fakeit {
             return reinterpret_cast<FakeObject<C, baseclasses...> &>(instance);
         }
 
-        void bind(const MethodProxy &methodProxy, Destructible *invocationHandler) {
+        void bind(const MethodProxy &methodProxy) {
             getFake().setMethod(methodProxy.getOffset(), methodProxy.getProxy());
-            _methodMocks[methodProxy.getOffset()].reset(invocationHandler);
             _offsets[methodProxy.getOffset()] = methodProxy.getId();
         }
 
-        void bindDtor(const MethodProxy &methodProxy, Destructible *invocationHandler) {
+        void bindDtor(const MethodProxy &methodProxy) {
             getFake().setDtor(methodProxy.getProxy());
-            _methodMocks[methodProxy.getOffset()].reset(invocationHandler);
             _offsets[methodProxy.getOffset()] = methodProxy.getId();
         }
 
@@ -6196,6 +6213,10 @@ namespace fakeit {
         }
 
         bool isBinded(unsigned int offset) {
+            return _offsets[offset] != std::numeric_limits<int>::max();
+        }
+
+        bool isStubbed(unsigned int offset) {
             std::shared_ptr<Destructible> ptr = _methodMocks[offset];
             return ptr.get() != nullptr;
         }
@@ -7996,18 +8017,15 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (frontAction().isDone())
+            {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
-            Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
-            std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
-            };
-            Finally onExit(finallyClause);
-            return action.invoke(args);
+            return frontAction().invoke(args);
         }
 
     private:
@@ -8029,6 +8047,10 @@ namespace fakeit {
             }
         };
 
+        Action<R, arglist...> &frontAction() {
+            return dynamic_cast<Action<R, arglist...> &>(*_recordedActions.front());
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
@@ -8382,8 +8404,15 @@ namespace fakeit {
         ::type setMatchingCriteria(matcherCreators &&... matcherCreator) {
             std::vector<Destructible *> matchers;
 
-            MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                MatchersCollector<0, arglist...> c(matchers);
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+                for (auto matcher : matchers) {
+                    delete matcher;
+                }
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
@@ -8550,6 +8579,7 @@ namespace fakeit {
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
             FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
             fake->getVirtualTable().setCookie(1, this);
+            fakesContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8585,7 +8615,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8648,6 +8677,8 @@ namespace fakeit {
 
             virtual RecordedMethodBody<R, arglist...> &getRecordedMethodBody() = 0;
 
+            virtual void bindMethod() = 0;
+
         public:
             MethodMockingContextBase(MockImpl<C, baseclasses...> &mock) : _mock(mock) { }
 
@@ -8656,6 +8687,7 @@ namespace fakeit {
             void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
                 ActualInvocationHandler<R, arglist...> *invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
+                bindMethod();
             }
 
             void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) {
@@ -8732,11 +8764,16 @@ namespace fakeit {
         protected:
 
             virtual RecordedMethodBody<R, arglist...> &getRecordedMethodBody() override {
-                return MethodMockingContextBase<R, arglist...>::_mock.template stubMethodIfNotStubbed<id>(
+                return MethodMockingContextBase<R, arglist...>::_mock.stubMethodIfNotStubbed(
                         MethodMockingContextBase<R, arglist...>::_mock._proxy,
                         MethodMockingContextImpl<R, arglist...>::_vMethod);
             }
 
+            virtual void bindMethod() override {
+                MethodMockingContextBase<R, arglist...>::_mock._proxy.template bindMethod<id>(
+                        MethodMockingContextImpl<R, arglist...>::_vMethod);
+            }
+
         public:
 
             UniqueMethodMockingContextImpl(MockImpl<C, baseclasses...> &mock, R (C::*vMethod)(arglist...))
@@ -8753,6 +8790,10 @@ namespace fakeit {
                         MethodMockingContextBase<void>::_mock._proxy);
             }
 
+            virtual void bindMethod() override {
+                MethodMockingContextBase<void>::_mock._proxy.bindDtor();
+            }
+
         public:
             virtual ~DtorMockingContextImpl() = default;
 
@@ -8783,10 +8824,17 @@ namespace fakeit {
 
 		void unmockedDtor() {}
 
+        static std::atomic<FakeitContext *> &fakesContext() {
+            static std::atomic<FakeitContext *> context{nullptr};
+            return context;
+        }
+
+
+
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            FakeitContext &fakeit = *fakesContext().load();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -8824,11 +8872,11 @@ namespace fakeit {
             return origMethodPtr;
         }
 
-        template<unsigned int id, typename R, typename ... arglist>
+        template<typename R, typename ... arglist>
         RecordedMethodBody<R, arglist...> &stubMethodIfNotStubbed(DynamicProxy<C, baseclasses...> &proxy,
                                                                   R (C::*vMethod)(arglist...)) {
             if (!proxy.isMethodStubbed(vMethod)) {
-                proxy.template stubMethod<id>(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
+                proxy.stubMethod(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
             }
             Destructible *d = proxy.getMethodMock(vMethod);
             RecordedMethodBody<R, arglist...> *methodMock = dynamic_cast<RecordedMethodBody<R, arglist...> *>(d);
@@ -9344,14 +9392,17 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+
+            std::vector<Invocation *> currentMatch;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, currentMatch, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), currentMatch.begin(), currentMatch.end());
             end = startSearchIndex;
             return true;
         }
@@ -9661,6 +9712,9 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
@@ -10067,6 +10121,24 @@ namespace fakeit {
 #define __func__ __FUNCTION__
 #endif
 
+namespace fakeit {
+    constexpr unsigned int textHash(const char *text, unsigned int begin, unsigned int end) {
+        return end - begin < 2
+               ? static_cast<unsigned char>(text[begin])
+               : textHash(text, begin, begin + (end - begin) / 2) * 1000003u
+                 ^ textHash(text, begin + (end - begin) / 2, end) * 2654435761u;
+    }
+
+
+
+    constexpr int methodId(unsigned int hash, unsigned int counter) {
+        return static_cast<int>((hash + counter) & 0x3fffffffu);
+    }
+}
+
+#define FAKEIT_METHOD_ID(text) \
+    fakeit::methodId(fakeit::textHash(text, 0, sizeof(text)), __COUNTER__)
+
 #define MOCK_TYPE(mock) \
     std::remove_reference<decltype((mock).get())>::type
 
@@ -10092,25 +10164,25 @@ namespace fakeit {
     (mock).dtor().setMethodDetails(#mock,"destructor")
 
 #define Method(mock, method) \
-    (mock).template stub<__COUNTER__>(&MOCK_TYPE(mock)::method).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method)>(&MOCK_TYPE(mock)::method).setMethodDetails(#mock,#method)
 
 #define OverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " " #prototype)>(OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const " #prototype)>(CONST_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define RefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " & " #prototype)>(REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const& " #prototype)>(CONST_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define RValRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " && " #prototype)>(R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstRValRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const&& " #prototype)>(CONST_R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define Verify(...) \
         Verify( __VA_ARGS__ ).setFileInfo(__FILE__, __LINE__, __func__)
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index 7facb68..8da6020 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2024-10-06 20:50:22.257964
+ *  Generated: 2026-11-16 09:51:43.920453
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -1233,6 +1233,7 @@ namespace fakeit
 static fakeit::DefaultFakeit& Fakeit = fakeit::DoctestFakeit::getInstance();
 
 
+#include <atomic>
 #include <type_traits>
 #include <unordered_set>
 
@@ -5898,7 +5899,9 @@ namespace fakeit {
         }
 
         ~Finally() {
-            _finallyClause();
+            if (_finallyClause) {
+                _finallyClause();
+            }
         }
     };
 }
@@ -6067,7 +6070,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6075,15 +6078,30 @@ namespace fakeit {
         {
         }
 
-        template<int id, typename R, typename ... arglist>
+        template<typename R, typename ... arglist>
         void stubMethod(R(C::*vMethod)(arglist...), MethodInvocationHandler<R, arglist...> *methodInvocationHandler) {
+            _methodMocks[VTUtils::getOffset(vMethod)].reset(methodInvocationHandler);
+        }
+
+        void stubDtor(MethodInvocationHandler<void> *methodInvocationHandler) {
+            _methodMocks[VTUtils::getDestructorOffset<C>()].reset(methodInvocationHandler);
+        }
+
+
+        template<int id, typename R, typename ... arglist>
+        void bindMethod(R(C::*vMethod)(arglist...)) {
             auto offset = VTUtils::getOffset(vMethod);
             MethodProxyCreator<R, arglist...> creator;
-            bind(creator.template createMethodProxy<id + 1>(offset), methodInvocationHandler);
+            if (!isBinded(offset)) {
+                bind(creator.template createMethodProxy<id + 1>(offset));
+            }
         }
 
-        void stubDtor(MethodInvocationHandler<void> *methodInvocationHandler) {
+        void bindDtor() {
             auto offset = VTUtils::getDestructorOffset<C>();
+            if (isBinded(offset)) {
+                return;
+            }
             MethodProxyCreator<void> creator;
 
 
@@ -6092,21 +6110,21 @@ namespace fakeit {
 
 
 #ifdef _MSC_VER
-            bindDtor(creator.createMethodProxyStatic<0>(offset), methodInvocationHandler);
+            bindDtor(creator.createMethodProxyStatic<0>(offset));
 #else
-            bindDtor(creator.createMethodProxy<0>(offset), methodInvocationHandler);
+            bindDtor(creator.createMethodProxy<0>(offset));
 #endif
         }
 
         template<typename R, typename ... arglist>
         bool isMethodStubbed(R(C::*vMethod)(arglist...)) {
             unsigned int offset = VTUtils::getOffset(vMethod);
-            return isBinded(offset);
+            return isStubbed(offset);
         }
 
         bool isDtorStubbed() {
             unsigned int offset = VTUtils::getDestructorOffset<C>();
-            return isBinded(offset);
+            return isStubbed(offset);
         }
 
         template<typename R, typename ... arglist>
@@ -6154,10 +6172,11 @@ namespace fakeit {
             auto fakeMethod = getFake().getVirtualTable().getMethod(offset);
             auto originalMethod = getOriginalVT().getMethod(offset);
 
-            getFake().setMethod(offset, originalMethod);
-            return Finally{[&, offset, fakeMethod](){
+            Finally restoreFakeMethod{[&, offset, fakeMethod](){
                 getFake().setMethod(offset, fakeMethod);
             }};
+            getFake().setMethod(offset, originalMethod);
+            return restoreFakeMethod;
         }
 
     private:
@@ -6193,15 +6212,13 @@ namespace fakeit {
             return reinterpret_cast<FakeObject<C, baseclasses...> &>(instance);
         }
 
-        void bind(const MethodProxy &methodProxy, Destructible *invocationHandler) {
+        void bind(const MethodProxy &methodProxy) {
             getFake().setMethod(methodProxy.getOffset(), methodProxy.getProxy());
-            _methodMocks[methodProxy.getOffset()].reset(invocationHandler);
             _offsets[methodProxy.getOffset()] = methodProxy.getId();
         }
 
-        void bindDtor(const MethodProxy &methodProxy, Destructible *invocationHandler) {
+        void bindDtor(const MethodProxy &methodProxy) {
             getFake().setDtor(methodProxy.getProxy());
-            _methodMocks[methodProxy.getOffset()].reset(invocationHandler);
             _offsets[methodProxy.getOffset()] = methodProxy.getId();
         }
 
@@ -6224,6 +6241,10 @@ namespace fakeit {
         }
 
         bool isBinded(unsigned int offset) {
+            return _offsets[offset] != std::numeric_limits<int>::max();
+        }
+
+        bool isStubbed(unsigned int offset) {
             std::shared_ptr<Destructible> ptr = _methodMocks[offset];
             return ptr.get() != nullptr;
         }
@@ -8024,18 +8045,15 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (frontAction().isDone())
+            {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
-            Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
-            std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
-            };
-            Finally onExit(finallyClause);
-            return action.invoke(args);
+            return frontAction().invoke(args);
         }
 
     private:
@@ -8057,6 +8075,10 @@ namespace fakeit {
             }
         };
 
+        Action<R, arglist...> &frontAction() {
+            return dynamic_cast<Action<R, arglist...> &>(*_recordedActions.front());
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
@@ -8410,8 +8432,15 @@ namespace fakeit {
         ::type setMatchingCriteria(matcherCreators &&... matcherCreator) {
             std::vector<Destructible *> matchers;
 
-            MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                MatchersCollector<0, arglist...> c(matchers);
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+                for (auto matcher : matchers) {
+                    delete matcher;
+                }
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
@@ -8578,6 +8607,7 @@ namespace fakeit {
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
             FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
             fake->getVirtualTable().setCookie(1, this);
+            fakesContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8613,7 +8643,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8676,6 +8705,8 @@ namespace fakeit {
 
             virtual RecordedMethodBody<R, arglist...> &getRecordedMethodBody() = 0;
 
+            virtual void bindMethod() = 0;
+
         public:
             MethodMockingContextBase(MockImpl<C, baseclasses...> &mock) : _mock(mock) { }
 
@@ -8684,6 +8715,7 @@ namespace fakeit {
             void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
                 ActualInvocationHandler<R, arglist...> *invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
+                bindMethod();
             }
 
             void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) {
@@ -8760,11 +8792,16 @@ namespace fakeit {
         protected:
 
             virtual RecordedMethodBody<R, arglist...> &getRecordedMethodBody() override {
-                return MethodMockingContextBase<R, arglist...>::_mock.template stubMethodIfNotStubbed<id>(
+                return MethodMockingContextBase<R, arglist...>::_mock.stubMethodIfNotStubbed(
                         MethodMockingContextBase<R, arglist...>::_mock._proxy,
                         MethodMockingContextImpl<R, arglist...>::_vMethod);
             }
 
+            virtual void bindMethod() override {
+                MethodMockingContextBase<R, arglist...>::_mock._proxy.template bindMethod<id>(
+                        MethodMockingContextImpl<R, arglist...>::_vMethod);
+            }
+
         public:
 
             UniqueMethodMockingContextImpl(MockImpl<C, baseclasses...> &mock, R (C::*vMethod)(arglist...))
@@ -8781,6 +8818,10 @@ namespace fakeit {
                         MethodMockingContextBase<void>::_mock._proxy);
             }
 
+            virtual void bindMethod() override {
+                MethodMockingContextBase<void>::_mock._proxy.bindDtor();
+            }
+
         public:
             virtual ~DtorMockingContextImpl() = default;
 
@@ -8811,10 +8852,17 @@ namespace fakeit {
 
 		void unmockedDtor() {}
 
+        static std::atomic<FakeitContext *> &fakesContext() {
+            static std::atomic<FakeitContext *> context{nullptr};
+            return context;
+        }
+
+
+
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            FakeitContext &fakeit = *fakesContext().load();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -8852,11 +8900,11 @@ namespace fakeit {
             return origMethodPtr;
         }
 
-        template<unsigned int id, typename R, typename ... arglist>
+        template<typename R, typename ... arglist>
         RecordedMethodBody<R, arglist...> &stubMethodIfNotStubbed(DynamicProxy<C, baseclasses...> &proxy,
                                                                   R (C::*vMethod)(arglist...)) {
             if (!proxy.isMethodStubbed(vMethod)) {
-                proxy.template stubMethod<id>(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
+                proxy.stubMethod(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
             }
             Destructible *d = proxy.getMethodMock(vMethod);
             RecordedMethodBody<R, arglist...> *methodMock = dynamic_cast<RecordedMethodBody<R, arglist...> *>(d);
@@ -9372,14 +9420,17 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+
+            std::vector<Invocation *> currentMatch;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, currentMatch, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), currentMatch.begin(), currentMatch.end());
             end = startSearchIndex;
             return true;
         }
@@ -9675,6 +9726,9 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
@@ -10081,6 +10135,24 @@ namespace fakeit {
 #define __func__ __FUNCTION__
 #endif
 
+namespace fakeit {
+    constexpr unsigned int textHash(const char *text, unsigned int begin, unsigned int end) {
+        return end - begin < 2
+               ? static_cast<unsigned char>(text[begin])
+               : textHash(text, begin, begin + (end - begin) / 2) * 1000003u
+                 ^ textHash(text, begin + (end - begin) / 2, end) * 2654435761u;
+    }
+
+
+
+    constexpr int methodId(unsigned int hash, unsigned int counter) {
+        return static_cast<int>((hash + counter) & 0x3fffffffu);
+    }
+}
+
+#define FAKEIT_METHOD_ID(text) \
+    fakeit::methodId(fakeit::textHash(text, 0, sizeof(text)), __COUNTER__)
+
 #define MOCK_TYPE(mock) \
     std::remove_reference<decltype((mock).get())>::type
 
@@ -10106,25 +10178,25 @@ namespace fakeit {
     (mock).dtor().setMethodDetails(#mock,"destructor")
 
 #define Method(mock, method) \
-    (mock).template stub<__COUNTER__>(&MOCK_TYPE(mock)::method).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method)>(&MOCK_TYPE(mock)::method).setMethodDetails(#mock,#method)
 
 #define OverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " " #prototype)>(OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const " #prototype)>(CONST_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define RefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " & " #prototype)>(REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const& " #prototype)>(CONST_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define RValRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " && " #prototype)>(R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstRValRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const&& " #prototype)>(CONST_R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define Verify(...) \
         Verify( __VA_ARGS__ ).setFileInfo(__FILE__, __LINE__, __func__)
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index 3fcd6a7..43297bf 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2024-10-06 20:50:22.277044
+ *  Generated: 2026-11-16 09:51:43.839538
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -1205,6 +1205,7 @@ namespace fakeit {
 static fakeit::DefaultFakeit& Fakeit = fakeit::GTestFakeit::getInstance();
 
 
+#include <atomic>
 #include <type_traits>
 #include <unordered_set>
 
@@ -5870,7 +5871,9 @@ namespace fakeit {
         }
 
         ~Finally() {
-            _finallyClause();
+            if (_finallyClause) {
+                _finallyClause();
+            }
         }
     };
 }
@@ -6039,7 +6042,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6047,15 +6050,30 @@ namespace fakeit {
         {
         }
 
-        template<int id, typename R, typename ... arglist>
+        template<typename R, typename ... arglist>
         void stubMethod(R(C::*vMethod)(arglist...), MethodInvocationHandler<R, arglist...> *methodInvocationHandler) {
+            _methodMocks[VTUtils::getOffset(vMethod)].reset(methodInvocationHandler);
+        }
+
+        void stubDtor(MethodInvocationHandler<void> *methodInvocationHandler) {
+            _methodMocks[VTUtils::getDestructorOffset<C>()].reset(methodInvocationHandler);
+        }
+
+
+        template<int id, typename R, typename ... arglist>
+        void bindMethod(R(C::*vMethod)(arglist...)) {
             auto offset = VTUtils::getOffset(vMethod);
             MethodProxyCreator<R, arglist...> creator;
-            bind(creator.template createMethodProxy<id + 1>(offset), methodInvocationHandler);
+            if (!isBinded(offset)) {
+                bind(creator.template createMethodProxy<id + 1>(offset));
+            }
         }
 
-        void stubDtor(MethodInvocationHandler<void> *methodInvocationHandler) {
+        void bindDtor() {
             auto offset = VTUtils::getDestructorOffset<C>();
+            if (isBinded(offset)) {
+                return;
+            }
             MethodProxyCreator<void> creator;
 
 
@@ -6064,21 +6082,21 @@ namespace fakeit {
 
 
 #ifdef _MSC_VER
-            bindDtor(creator.createMethodProxyStatic<0>(offset), methodInvocationHandler);
+            bindDtor(creator.createMethodProxyStatic<0>(offset));
 #else
-            bindDtor(creator.createMethodProxy<0>(offset), methodInvocationHandler);
+            bindDtor(creator.createMethodProxy<0>(offset));
 #endif
         }
 
         template<typename R, typename ... arglist>
         bool isMethodStubbed(R(C::*vMethod)(arglist...)) {
             unsigned int offset = VTUtils::getOffset(vMethod);
-            return isBinded(offset);
+            return isStubbed(offset);
         }
 
         bool isDtorStubbed() {
             unsigned int offset = VTUtils::getDestructorOffset<C>();
-            return isBinded(offset);
+            return isStubbed(offset);
         }
 
         template<typename R, typename ... arglist>
@@ -6126,10 +6144,11 @@ namespace fakeit {
             auto fakeMethod = getFake().getVirtualTable().getMethod(offset);
             auto originalMethod = getOriginalVT().getMethod(offset);
 
-            getFake().setMethod(offset, originalMethod);
-            return Finally{[&, offset, fakeMethod](){
+            Finally restoreFakeMethod{[&, offset, fakeMethod](){
                 getFake().setMethod(offset, fakeMethod);
             }};
+            getFake().setMethod(offset, originalMethod);
+            return restoreFakeMethod;
         }
 
     private:
@@ -6165,15 +6184,13 @@ namespace fakeit {
             return reinterpret_cast<FakeObject<C, baseclasses...> &>(instance);
         }
 
-        void bind(const MethodProxy &methodProxy, Destructible *invocationHandler) {
+        void bind(const MethodProxy &methodProxy) {
             getFake().setMethod(methodProxy.getOffset(), methodProxy.getProxy());
-            _methodMocks[methodProxy.getOffset()].reset(invocationHandler);
             _offsets[methodProxy.getOffset()] = methodProxy.getId();
         }
 
-        void bindDtor(const MethodProxy &methodProxy, Destructible *invocationHandler) {
+        void bindDtor(const MethodProxy &methodProxy) {
             getFake().setDtor(methodProxy.getProxy());
-            _methodMocks[methodProxy.getOffset()].reset(invocationHandler);
             _offsets[methodProxy.getOffset()] = methodProxy.getId();
         }
 
@@ -6196,6 +6213,10 @@ namespace fakeit {
         }
 
         bool isBinded(unsigned int offset) {
+            return _offsets[offset] != std::numeric_limits<int>::max();
+        }
+
+        bool isStubbed(unsigned int offset) {
             std::shared_ptr<Destructible> ptr = _methodMocks[offset];
             return ptr.get() != nullptr;
         }
@@ -7996,18 +8017,15 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (frontAction().isDone())
+            {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
-            Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
-            std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
-            };
-            Finally onExit(finallyClause);
-            return action.invoke(args);
+            return frontAction().invoke(args);
         }
 
     private:
@@ -8029,6 +8047,10 @@ namespace fakeit {
             }
         };
 
+        Action<R, arglist...> &frontAction() {
+            return dynamic_cast<Action<R, arglist...> &>(*_recordedActions.front());
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
@@ -8382,8 +8404,15 @@ namespace fakeit {
         ::type setMatchingCriteria(matcherCreators &&... matcherCreator) {
             std::vector<Destructible *> matchers;
 
-            MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                MatchersCollector<0, arglist...> c(matchers);
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+                for (auto matcher : matchers) {
+                    delete matcher;
+                }
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
@@ -8550,6 +8579,7 @@ namespace fakeit {
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
             FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
             fake->getVirtualTable().setCookie(1, this);
+            fakesContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8585,7 +8615,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8648,6 +8677,8 @@ namespace fakeit {
 
             virtual RecordedMethodBody<R, arglist...> &getRecordedMethodBody() = 0;
 
+            virtual void bindMethod() = 0;
+
         public:
             MethodMockingContextBase(MockImpl<C, baseclasses...> &mock) : _mock(mock) { }
 
@@ -8656,6 +8687,7 @@ namespace fakeit {
             void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
                 ActualInvocationHandler<R, arglist...> *invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
+                bindMethod();
             }
 
             void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) {
@@ -8732,11 +8764,16 @@ namespace fakeit {
         protected:
 
             virtual RecordedMethodBody<R, arglist...> &getRecordedMethodBody() override {
-                return MethodMockingContextBase<R, arglist...>::_mock.template stubMethodIfNotStubbed<id>(
+                return MethodMockingContextBase<R, arglist...>::_mock.stubMethodIfNotStubbed(
                         MethodMockingContextBase<R, arglist...>::_mock._proxy,
                         MethodMockingContextImpl<R, arglist...>::_vMethod);
             }
 
+            virtual void bindMethod() override {
+                MethodMockingContextBase<R, arglist...>::_mock._proxy.template bindMethod<id>(
+                        MethodMockingContextImpl<R, arglist...>::_vMethod);
+            }
+
         public:
 
             UniqueMethodMockingContextImpl(MockImpl<C, baseclasses...> &mock, R (C::*vMethod)(arglist...))
@@ -8753,6 +8790,10 @@ namespace fakeit {
                         MethodMockingContextBase<void>::_mock._proxy);
             }
 
+            virtual void bindMethod() override {
+                MethodMockingContextBase<void>::_mock._proxy.bindDtor();
+            }
+
         public:
             virtual ~DtorMockingContextImpl() = default;
 
@@ -8783,10 +8824,17 @@ namespace fakeit {
 
 		void unmockedDtor() {}
 
+        static std::atomic<FakeitContext *> &fakesContext() {
+            static std::atomic<FakeitContext *> context{nullptr};
+            return context;
+        }
+
+
+
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            FakeitContext &fakeit = *fakesContext().load();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -8824,11 +8872,11 @@ namespace fakeit {
             return origMethodPtr;
         }
 
-        template<unsigned int id, typename R, typename ... arglist>
+        template<typename R, typename ... arglist>
         RecordedMethodBody<R, arglist...> &stubMethodIfNotStubbed(DynamicProxy<C, baseclasses...> &proxy,
                                                                   R (C::*vMethod)(arglist...)) {
             if (!proxy.isMethodStubbed(vMethod)) {
-                proxy.template stubMethod<id>(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
+                proxy.stubMethod(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
             }
             Destructible *d = proxy.getMethodMock(vMethod);
             RecordedMethodBody<R, arglist...> *methodMock = dynamic_cast<RecordedMethodBody<R, arglist...> *>(d);
@@ -9344,14 +9392,17 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+
+            std::vector<Invocation *> currentMatch;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, currentMatch, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), currentMatch.begin(), currentMatch.end());
             end = startSearchIndex;
             return true;
         }
@@ -9661,6 +9712,9 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
@@ -10067,6 +10121,24 @@ namespace fakeit {
 #define __func__ __FUNCTION__
 #endif
 
+namespace fakeit {
+    constexpr unsigned int textHash(const char *text, unsigned int begin, unsigned int end) {
+        return end - begin < 2
+               ? static_cast<unsigned char>(text[begin])
+               : textHash(text, begin, begin + (end - begin) / 2) * 1000003u
+                 ^ textHash(text, begin + (end - begin) / 2, end) * 2654435761u;
+    }
+
+
+
+    constexpr int methodId(unsigned int hash, unsigned int counter) {
+        return static_cast<int>((hash + counter) & 0x3fffffffu);
+    }
+}
+
+#define FAKEIT_METHOD_ID(text) \
+    fakeit::methodId(fakeit::textHash(text, 0, sizeof(text)), __COUNTER__)
+
 #define MOCK_TYPE(mock) \
     std::remove_reference<decltype((mock).get())>::type
 
@@ -10092,25 +10164,25 @@ namespace fakeit {
     (mock).dtor().setMethodDetails(#mock,"destructor")
 
 #define Method(mock, method) \
-    (mock).template stub<__COUNTER__>(&MOCK_TYPE(mock)::method).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method)>(&MOCK_TYPE(mock)::method).setMethodDetails(#mock,#method)
 
 #define OverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " " #prototype)>(OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const " #prototype)>(CONST_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define RefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " & " #prototype)>(REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const& " #prototype)>(CONST_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define RValRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " && " #prototype)>(R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstRValRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const&& " #prototype)>(CONST_R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define Verify(...) \
         Verify( __VA_ARGS__ ).setFileInfo(__FILE__, __LINE__, __func__)
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index 31b4f52..34566a4 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2024-10-06 20:50:22.296193
+ *  Generated: 2026-11-16 09:51:43.951375
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -1227,6 +1227,7 @@ namespace fakeit {
 static fakeit::DefaultFakeit& Fakeit = fakeit::MettleFakeit::getInstance();
 
 
+#include <atomic>
 #include <type_traits>
 #include <unordered_set>
 
@@ -5892,7 +5893,9 @@ namespace fakeit {
         }
 
         ~Finally() {
-            _finallyClause();
+            if (_finallyClause) {
+                _finallyClause();
+            }
         }
     };
 }
@@ -6061,7 +6064,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6069,15 +6072,30 @@ namespace fakeit {
         {
         }
 
-        template<int id, typename R, typename ... arglist>
+        template<typename R, typename ... arglist>
         void stubMethod(R(C::*vMethod)(arglist...), MethodInvocationHandler<R, arglist...> *methodInvocationHandler) {
+            _methodMocks[VTUtils::getOffset(vMethod)].reset(methodInvocationHandler);
+        }
+
+        void stubDtor(MethodInvocationHandler<void> *methodInvocationHandler) {
+            _methodMocks[VTUtils::getDestructorOffset<C>()].reset(methodInvocationHandler);
+        }
+
+
+        template<int id, typename R, typename ... arglist>
+        void bindMethod(R(C::*vMethod)(arglist...)) {
             auto offset = VTUtils::getOffset(vMethod);
             MethodProxyCreator<R, arglist...> creator;
-            bind(creator.template createMethodProxy<id + 1>(offset), methodInvocationHandler);
+            if (!isBinded(offset)) {
+                bind(creator.template createMethodProxy<id + 1>(offset));
+            }
         }
 
-        void stubDtor(MethodInvocationHandler<void> *methodInvocationHandler) {
+        void bindDtor() {
             auto offset = VTUtils::getDestructorOffset<C>();
+            if (isBinded(offset)) {
+                return;
+            }
             MethodProxyCreator<void> creator;
 
 
@@ -6086,21 +6104,21 @@ namespace fakeit {
 
 
 #ifdef _MSC_VER
-            bindDtor(creator.createMethodProxyStatic<0>(offset), methodInvocationHandler);
+            bindDtor(creator.createMethodProxyStatic<0>(offset));
 #else
-            bindDtor(creator.createMethodProxy<0>(offset), methodInvocationHandler);
+            bindDtor(creator.createMethodProxy<0>(offset));
 #endif
         }
 
         template<typename R, typename ... arglist>
         bool isMethodStubbed(R(C::*vMethod)(arglist...)) {
             unsigned int offset = VTUtils::getOffset(vMethod);
-            return isBinded(offset);
+            return isStubbed(offset);
         }
 
         bool isDtorStubbed() {
             unsigned int offset = VTUtils::getDestructorOffset<C>();
-            return isBinded(offset);
+            return isStubbed(offset);
         }
 
         template<typename R, typename ... arglist>
@@ -6148,10 +6166,11 @@ namespace fakeit {
             auto fakeMethod = getFake().getVirtualTable().getMethod(offset);
             auto originalMethod = getOriginalVT().getMethod(offset);
 
-            getFake().setMethod(offset, originalMethod);
-            return Finally{[&, offset, fakeMethod](){
+            Finally restoreFakeMethod{[&, offset, fakeMethod](){
                 getFake().setMethod(offset, fakeMethod);
             }};
+            getFake().setMethod(offset, originalMethod);
+            return restoreFakeMethod;
         }
 
     private:
@@ -6187,15 +6206,13 @@ namespace fakeit {
             return reinterpret_cast<FakeObject<C, baseclasses...> &>(instance);
         }
 
-        void bind(const MethodProxy &methodProxy, Destructible *invocationHandler) {
+        void bind(const MethodProxy &methodProxy) {
             getFake().setMethod(methodProxy.getOffset(), methodProxy.getProxy());
-            _methodMocks[methodProxy.getOffset()].reset(invocationHandler);
             _offsets[methodProxy.getOffset()] = methodProxy.getId();
         }
 
-        void bindDtor(const MethodProxy &methodProxy, Destructible *invocationHandler) {
+        void bindDtor(const MethodProxy &methodProxy) {
             getFake().setDtor(methodProxy.getProxy());
-            _methodMocks[methodProxy.getOffset()].reset(invocationHandler);
             _offsets[methodProxy.getOffset()] = methodProxy.getId();
         }
 
@@ -6218,6 +6235,10 @@ namespace fakeit {
         }
 
         bool isBinded(unsigned int offset) {
+            return _offsets[offset] != std::numeric_limits<int>::max();
+        }
+
+        bool isStubbed(unsigned int offset) {
             std::shared_ptr<Destructible> ptr = _methodMocks[offset];
             return ptr.get() != nullptr;
         }
@@ -8018,18 +8039,15 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (frontAction().isDone())
+            {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
-            Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
-            std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
-            };
-            Finally onExit(finallyClause);
-            return action.invoke(args);
+            return frontAction().invoke(args);
         }
 
     private:
@@ -8051,6 +8069,10 @@ namespace fakeit {
             }
         };
 
+        Action<R, arglist...> &frontAction() {
+            return dynamic_cast<Action<R, arglist...> &>(*_recordedActions.front());
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
@@ -8404,8 +8426,15 @@ namespace fakeit {
         ::type setMatchingCriteria(matcherCreators &&... matcherCreator) {
             std::vector<Destructible *> matchers;
 
-            MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                MatchersCollector<0, arglist...> c(matchers);
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+                for (auto matcher : matchers) {
+                    delete matcher;
+                }
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
@@ -8572,6 +8601,7 @@ namespace fakeit {
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
             FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
             fake->getVirtualTable().setCookie(1, this);
+            fakesContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8607,7 +8637,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8670,6 +8699,8 @@ namespace fakeit {
 
             virtual RecordedMethodBody<R, arglist...> &getRecordedMethodBody() = 0;
 
+            virtual void bindMethod() = 0;
+
         public:
             MethodMockingContextBase(MockImpl<C, baseclasses...> &mock) : _mock(mock) { }
 
@@ -8678,6 +8709,7 @@ namespace fakeit {
             void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
                 ActualInvocationHandler<R, arglist...> *invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
+                bindMethod();
             }
 
             void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) {
@@ -8754,11 +8786,16 @@ namespace fakeit {
         protected:
 
             virtual RecordedMethodBody<R, arglist...> &getRecordedMethodBody() override {
-                return MethodMockingContextBase<R, arglist...>::_mock.template stubMethodIfNotStubbed<id>(
+                return MethodMockingContextBase<R, arglist...>::_mock.stubMethodIfNotStubbed(
                         MethodMockingContextBase<R, arglist...>::_mock._proxy,
                         MethodMockingContextImpl<R, arglist...>::_vMethod);
             }
 
+            virtual void bindMethod() override {
+                MethodMockingContextBase<R, arglist...>::_mock._proxy.template bindMethod<id>(
+                        MethodMockingContextImpl<R, arglist...>::_vMethod);
+            }
+
         public:
 
             UniqueMethodMockingContextImpl(MockImpl<C, baseclasses...> &mock, R (C::*vMethod)(arglist...))
@@ -8775,6 +8812,10 @@ namespace fakeit {
                         MethodMockingContextBase<void>::_mock._proxy);
             }
 
+            virtual void bindMethod() override {
+                MethodMockingContextBase<void>::_mock._proxy.bindDtor();
+            }
+
         public:
             virtual ~DtorMockingContextImpl() = default;
 
@@ -8805,10 +8846,17 @@ namespace fakeit {
 
 		void unmockedDtor() {}
 
+        static std::atomic<FakeitContext *> &fakesContext() {
+            static std::atomic<FakeitContext *> context{nullptr};
+            return context;
+        }
+
+
+
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            FakeitContext &fakeit = *fakesContext().load();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -8846,11 +8894,11 @@ namespace fakeit {
             return origMethodPtr;
         }
 
-        template<unsigned int id, typename R, typename ... arglist>
+        template<typename R, typename ... arglist>
         RecordedMethodBody<R, arglist...> &stubMethodIfNotStubbed(DynamicProxy<C, baseclasses...> &proxy,
                                                                   R (C::*vMethod)(arglist...)) {
             if (!proxy.isMethodStubbed(vMethod)) {
-                proxy.template stubMethod<id>(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
+                proxy.stubMethod(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
             }
             Destructible *d = proxy.getMethodMock(vMethod);
             RecordedMethodBody<R, arglist...> *methodMock = dynamic_cast<RecordedMethodBody<R, arglist...> *>(d);
@@ -9366,14 +9414,17 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+
+            std::vector<Invocation *> currentMatch;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, currentMatch, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), currentMatch.begin(), currentMatch.end());
             end = startSearchIndex;
             return true;
         }
@@ -9669,6 +9720,9 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
@@ -10075,6 +10129,24 @@ namespace fakeit {
 #define __func__ __FUNCTION__
 #endif
 
+namespace fakeit {
+    constexpr unsigned int textHash(const char *text, unsigned int begin, unsigned int end) {
+        return end - begin < 2
+               ? static_cast<unsigned char>(text[begin])
+               : textHash(text, begin, begin + (end - begin) / 2) * 1000003u
+                 ^ textHash(text, begin + (end - begin) / 2, end) * 2654435761u;
+    }
+
+
+
+    constexpr int methodId(unsigned int hash, unsigned int counter) {
+        return static_cast<int>((hash + counter) & 0x3fffffffu);
+    }
+}
+
+#define FAKEIT_METHOD_ID(text) \
+    fakeit::methodId(fakeit::textHash(text, 0, sizeof(text)), __COUNTER__)
+
 #define MOCK_TYPE(mock) \
     std::remove_reference<decltype((mock).get())>::type
 
@@ -10100,25 +10172,25 @@ namespace fakeit {
     (mock).dtor().setMethodDetails(#mock,"destructor")
 
 #define Method(mock, method) \
-    (mock).template stub<__COUNTER__>(&MOCK_TYPE(mock)::method).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method)>(&MOCK_TYPE(mock)::method).setMethodDetails(#mock,#method)
 
 #define OverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " " #prototype)>(OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const " #prototype)>(CONST_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define RefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " & " #prototype)>(REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const& " #prototype)>(CONST_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define RValRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " && " #prototype)>(R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstRValRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const&& " #prototype)>(CONST_R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define Verify(...) \
         Verify( __VA_ARGS__ ).setFileInfo(__FILE__, __LINE__, __func__)
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index 8f5b59e..f217ee8 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2024-10-06 20:50:22.315649
+ *  Generated: 2026-11-16 09:51:44.090465
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -1229,6 +1229,7 @@ namespace fakeit {
 static fakeit::DefaultFakeit& Fakeit = fakeit::MsTestFakeit::getInstance();
 
 
+#include <atomic>
 #include <type_traits>
 #include <unordered_set>
 
@@ -5894,7 +5895,9 @@ namespace fakeit {
         }
 
         ~Finally() {
-            _finallyClause();
+            if (_finallyClause) {
+                _finallyClause();
+            }
         }
     };
 }
@@ -6063,7 +6066,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6071,15 +6074,30 @@ namespace fakeit {
         {
         }
 
-        template<int id, typename R, typename ... arglist>
+        template<typename R, typename ... arglist>
         void stubMethod(R(C::*vMethod)(arglist...), MethodInvocationHandler<R, arglist...> *methodInvocationHandler) {
+            _methodMocks[VTUtils::getOffset(vMethod)].reset(methodInvocationHandler);
+        }
+
+        void stubDtor(MethodInvocationHandler<void> *methodInvocationHandler) {
+            _methodMocks[VTUtils::getDestructorOffset<C>()].reset(methodInvocationHandler);
+        }
+
+
+        template<int id, typename R, typename ... arglist>
+        void bindMethod(R(C::*vMethod)(arglist...)) {
             auto offset = VTUtils::getOffset(vMethod);
             MethodProxyCreator<R, arglist...> creator;
-            bind(creator.template createMethodProxy<id + 1>(offset), methodInvocationHandler);
+            if (!isBinded(offset)) {
+                bind(creator.template createMethodProxy<id + 1>(offset));
+            }
         }
 
-        void stubDtor(MethodInvocationHandler<void> *methodInvocationHandler) {
+        void bindDtor() {
             auto offset = VTUtils::getDestructorOffset<C>();
+            if (isBinded(offset)) {
+                return;
+            }
             MethodProxyCreator<void> creator;
 
 
@@ -6088,21 +6106,21 @@ namespace fakeit {
 
 
 #ifdef _MSC_VER
-            bindDtor(creator.createMethodProxyStatic<0>(offset), methodInvocationHandler);
+            bindDtor(creator.createMethodProxyStatic<0>(offset));
 #else
-            bindDtor(creator.createMethodProxy<0>(offset), methodInvocationHandler);
+            bindDtor(creator.createMethodProxy<0>(offset));
 #endif
         }
 
         template<typename R, typename ... arglist>
         bool isMethodStubbed(R(C::*vMethod)(arglist...)) {
             unsigned int offset = VTUtils::getOffset(vMethod);
-            return isBinded(offset);
+            return isStubbed(offset);
         }
 
         bool isDtorStubbed() {
             unsigned int offset = VTUtils::getDestructorOffset<C>();
-            return isBinded(offset);
+            return isStubbed(offset);
         }
 
         template<typename R, typename ... arglist>
@@ -6150,10 +6168,11 @@ namespace fakeit {
             auto fakeMethod = getFake().getVirtualTable().getMethod(offset);
             auto originalMethod = getOriginalVT().getMethod(offset);
 
-            getFake().setMethod(offset, originalMethod);
-            return Finally{[&, offset, fakeMethod](){
+            Finally restoreFakeMethod{[&, offset, fakeMethod](){
                 getFake().setMethod(offset, fakeMethod);
             }};
+            getFake().setMethod(offset, originalMethod);
+            return restoreFakeMethod;
         }
 
     private:
@@ -6189,15 +6208,13 @@ namespace fakeit {
             return reinterpret_cast<FakeObject<C, baseclasses...> &>(instance);
         }
 
-        void bind(const MethodProxy &methodProxy, Destructible *invocationHandler) {
+        void bind(const MethodProxy &methodProxy) {
             getFake().setMethod(methodProxy.getOffset(), methodProxy.getProxy());
-            _methodMocks[methodProxy.getOffset()].reset(invocationHandler);
             _offsets[methodProxy.getOffset()] = methodProxy.getId();
         }
 
-        void bindDtor(const MethodProxy &methodProxy, Destructible *invocationHandler) {
+        void bindDtor(const MethodProxy &methodProxy) {
             getFake().setDtor(methodProxy.getProxy());
-            _methodMocks[methodProxy.getOffset()].reset(invocationHandler);
             _offsets[methodProxy.getOffset()] = methodProxy.getId();
         }
 
@@ -6220,6 +6237,10 @@ namespace fakeit {
         }
 
         bool isBinded(unsigned int offset) {
+            return _offsets[offset] != std::numeric_limits<int>::max();
+        }
+
+        bool isStubbed(unsigned int offset) {
             std::shared_ptr<Destructible> ptr = _methodMocks[offset];
             return ptr.get() != nullptr;
         }
@@ -8020,18 +8041,15 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (frontAction().isDone())
+            {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
-            Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
-            std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
-            };
-            Finally onExit(finallyClause);
-            return action.invoke(args);
+            return frontAction().invoke(args);
         }
 
     private:
@@ -8053,6 +8071,10 @@ namespace fakeit {
             }
         };
 
+        Action<R, arglist...> &frontAction() {
+            return dynamic_cast<Action<R, arglist...> &>(*_recordedActions.front());
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
@@ -8406,8 +8428,15 @@ namespace fakeit {
         ::type setMatchingCriteria(matcherCreators &&... matcherCreator) {
             std::vector<Destructible *> matchers;
 
-            MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                MatchersCollector<0, arglist...> c(matchers);
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+                for (auto matcher : matchers) {
+                    delete matcher;
+                }
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
@@ -8574,6 +8603,7 @@ namespace fakeit {
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
             FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
             fake->getVirtualTable().setCookie(1, this);
+            fakesContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8609,7 +8639,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8672,6 +8701,8 @@ namespace fakeit {
 
             virtual RecordedMethodBody<R, arglist...> &getRecordedMethodBody() = 0;
 
+            virtual void bindMethod() = 0;
+
         public:
             MethodMockingContextBase(MockImpl<C, baseclasses...> &mock) : _mock(mock) { }
 
@@ -8680,6 +8711,7 @@ namespace fakeit {
             void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
                 ActualInvocationHandler<R, arglist...> *invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
+                bindMethod();
             }
 
             void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) {
@@ -8756,11 +8788,16 @@ namespace fakeit {
         protected:
 
             virtual RecordedMethodBody<R, arglist...> &getRecordedMethodBody() override {
-                return MethodMockingContextBase<R, arglist...>::_mock.template stubMethodIfNotStubbed<id>(
+                return MethodMockingContextBase<R, arglist...>::_mock.stubMethodIfNotStubbed(
                         MethodMockingContextBase<R, arglist...>::_mock._proxy,
                         MethodMockingContextImpl<R, arglist...>::_vMethod);
             }
 
+            virtual void bindMethod() override {
+                MethodMockingContextBase<R, arglist...>::_mock._proxy.template bindMethod<id>(
+                        MethodMockingContextImpl<R, arglist...>::_vMethod);
+            }
+
         public:
 
             UniqueMethodMockingContextImpl(MockImpl<C, baseclasses...> &mock, R (C::*vMethod)(arglist...))
@@ -8777,6 +8814,10 @@ namespace fakeit {
                         MethodMockingContextBase<void>::_mock._proxy);
             }
 
+            virtual void bindMethod() override {
+                MethodMockingContextBase<void>::_mock._proxy.bindDtor();
+            }
+
         public:
             virtual ~DtorMockingContextImpl() = default;
 
@@ -8807,10 +8848,17 @@ namespace fakeit {
 
 		void unmockedDtor() {}
 
+        static std::atomic<FakeitContext *> &fakesContext() {
+            static std::atomic<FakeitContext *> context{nullptr};
+            return context;
+        }
+
+
+
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            FakeitContext &fakeit = *fakesContext().load();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -8848,11 +8896,11 @@ namespace fakeit {
             return origMethodPtr;
         }
 
-        template<unsigned int id, typename R, typename ... arglist>
+        template<typename R, typename ... arglist>
         RecordedMethodBody<R, arglist...> &stubMethodIfNotStubbed(DynamicProxy<C, baseclasses...> &proxy,
                                                                   R (C::*vMethod)(arglist...)) {
             if (!proxy.isMethodStubbed(vMethod)) {
-                proxy.template stubMethod<id>(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
+                proxy.stubMethod(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
             }
             Destructible *d = proxy.getMethodMock(vMethod);
             RecordedMethodBody<R, arglist...> *methodMock = dynamic_cast<RecordedMethodBody<R, arglist...> *>(d);
@@ -9368,14 +9416,17 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+
+            std::vector<Invocation *> currentMatch;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, currentMatch, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), currentMatch.begin(), currentMatch.end());
             end = startSearchIndex;
             return true;
         }
@@ -9685,6 +9736,9 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
@@ -10091,6 +10145,24 @@ namespace fakeit {
 #define __func__ __FUNCTION__
 #endif
 
+namespace fakeit {
+    constexpr unsigned int textHash(const char *text, unsigned int begin, unsigned int end) {
+        return end - begin < 2
+               ? static_cast<unsigned char>(text[begin])
+               : textHash(text, begin, begin + (end - begin) / 2) * 1000003u
+                 ^ textHash(text, begin + (end - begin) / 2, end) * 2654435761u;
+    }
+
+
+
+    constexpr int methodId(unsigned int hash, unsigned int counter) {
+        return static_cast<int>((hash + counter) & 0x3fffffffu);
+    }
+}
+
+#define FAKEIT_METHOD_ID(text) \
+    fakeit::methodId(fakeit::textHash(text, 0, sizeof(text)), __COUNTER__)
+
 #define MOCK_TYPE(mock) \
     std::remove_reference<decltype((mock).get())>::type
 
@@ -10116,25 +10188,25 @@ namespace fakeit {
     (mock).dtor().setMethodDetails(#mock,"destructor")
 
 #define Method(mock, method) \
-    (mock).template stub<__COUNTER__>(&MOCK_TYPE(mock)::method).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method)>(&MOCK_TYPE(mock)::method).setMethodDetails(#mock,#method)
 
 #define OverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " " #prototype)>(OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const " #prototype)>(CONST_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define RefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " & " #prototype)>(REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const& " #prototype)>(CONST_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define RValRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " && " #prototype)>(R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstRValRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const&& " #prototype)>(CONST_R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define Verify(...) \
         Verify( __VA_ARGS__ ).setFileInfo(__FILE__, __LINE__, __func__)
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index 31b5322..1e530d9 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2024-10-06 20:50:22.334994
+ *  Generated: 2026-11-16 09:51:43.983120
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -1212,6 +1212,7 @@ static fakeit::DefaultFakeit& Fakeit = fakeit::NUnitFakeit::getInstance();
 static fakeit::MethodInfo& scopeFixer = fakeit::UnknownMethod::instance();
 
 
+#include <atomic>
 #include <type_traits>
 #include <unordered_set>
 
@@ -5877,7 +5878,9 @@ namespace fakeit {
         }
 
         ~Finally() {
-            _finallyClause();
+            if (_finallyClause) {
+                _finallyClause();
+            }
         }
     };
 }
@@ -6046,7 +6049,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6054,15 +6057,30 @@ namespace fakeit {
         {
         }
 
-        template<int id, typename R, typename ... arglist>
+        template<typename R, typename ... arglist>
         void stubMethod(R(C::*vMethod)(arglist...), MethodInvocationHandler<R, arglist...> *methodInvocationHandler) {
+            _methodMocks[VTUtils::getOffset(vMethod)].reset(methodInvocationHandler);
+        }
+
+        void stubDtor(MethodInvocationHandler<void> *methodInvocationHandler) {
+            _methodMocks[VTUtils::getDestructorOffset<C>()].reset(methodInvocationHandler);
+        }
+
+
+        template<int id, typename R, typename ... arglist>
+        void bindMethod(R(C::*vMethod)(arglist...)) {
             auto offset = VTUtils::getOffset(vMethod);
             MethodProxyCreator<R, arglist...> creator;
-            bind(creator.template createMethodProxy<id + 1>(offset), methodInvocationHandler);
+            if (!isBinded(offset)) {
+                bind(creator.template createMethodProxy<id + 1>(offset));
+            }
         }
 
-        void stubDtor(MethodInvocationHandler<void> *methodInvocationHandler) {
+        void bindDtor() {
             auto offset = VTUtils::getDestructorOffset<C>();
+            if (isBinded(offset)) {
+                return;
+            }
             MethodProxyCreator<void> creator;
 
 
@@ -6071,21 +6089,21 @@ namespace fakeit {
 
 
 #ifdef _MSC_VER
-            bindDtor(creator.createMethodProxyStatic<0>(offset), methodInvocationHandler);
+            bindDtor(creator.createMethodProxyStatic<0>(offset));
 #else
-            bindDtor(creator.createMethodProxy<0>(offset), methodInvocationHandler);
+            bindDtor(creator.createMethodProxy<0>(offset));
 #endif
         }
 
         template<typename R, typename ... arglist>
         bool isMethodStubbed(R(C::*vMethod)(arglist...)) {
             unsigned int offset = VTUtils::getOffset(vMethod);
-            return isBinded(offset);
+            return isStubbed(offset);
         }
 
         bool isDtorStubbed() {
             unsigned int offset = VTUtils::getDestructorOffset<C>();
-            return isBinded(offset);
+            return isStubbed(offset);
         }
 
         template<typename R, typename ... arglist>
@@ -6133,10 +6151,11 @@ namespace fakeit {
             auto fakeMethod = getFake().getVirtualTable().getMethod(offset);
             auto originalMethod = getOriginalVT().getMethod(offset);
 
-            getFake().setMethod(offset, originalMethod);
-            return Finally{[&, offset, fakeMethod](){
+            Finally restoreFakeMethod{[&, offset, fakeMethod](){
                 getFake().setMethod(offset, fakeMethod);
             }};
+            getFake().setMethod(offset, originalMethod);
+            return restoreFakeMethod;
         }
 
     private:
@@ -6172,15 +6191,13 @@ namespace fakeit {
             return reinterpret_cast<FakeObject<C, baseclasses...> &>(instance);
         }
 
-        void bind(const MethodProxy &methodProxy, Destructible *invocationHandler) {
+        void bind(const MethodProxy &methodProxy) {
             getFake().setMethod(methodProxy.getOffset(), methodProxy.getProxy());
-            _methodMocks[methodProxy.getOffset()].reset(invocationHandler);
             _offsets[methodProxy.getOffset()] = methodProxy.getId();
         }
 
-        void bindDtor(const MethodProxy &methodProxy, Destructible *invocationHandler) {
+        void bindDtor(const MethodProxy &methodProxy) {
             getFake().setDtor(methodProxy.getProxy());
-            _methodMocks[methodProxy.getOffset()].reset(invocationHandler);
             _offsets[methodProxy.getOffset()] = methodProxy.getId();
         }
 
@@ -6203,6 +6220,10 @@ namespace fakeit {
         }
 
         bool isBinded(unsigned int offset) {
+            return _offsets[offset] != std::numeric_limits<int>::max();
+        }
+
+        bool isStubbed(unsigned int offset) {
             std::shared_ptr<Destructible> ptr = _methodMocks[offset];
             return ptr.get() != nullptr;
         }
@@ -8003,18 +8024,15 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (frontAction().isDone())
+            {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
-            Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
-            std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
-            };
-            Finally onExit(finallyClause);
-            return action.invoke(args);
+            return frontAction().invoke(args);
         }
 
     private:
@@ -8036,6 +8054,10 @@ namespace fakeit {
             }
         };
 
+        Action<R, arglist...> &frontAction() {
+            return dynamic_cast<Action<R, arglist...> &>(*_recordedActions.front());
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
@@ -8389,8 +8411,15 @@ namespace fakeit {
         ::type setMatchingCriteria(matcherCreators &&... matcherCreator) {
             std::vector<Destructible *> matchers;
 
-            MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                MatchersCollector<0, arglist...> c(matchers);
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+                for (auto matcher : matchers) {
+                    delete matcher;
+                }
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
@@ -8557,6 +8586,7 @@ namespace fakeit {
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
             FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
             fake->getVirtualTable().setCookie(1, this);
+            fakesContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8592,7 +8622,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8655,6 +8684,8 @@ namespace fakeit {
 
             virtual RecordedMethodBody<R, arglist...> &getRecordedMethodBody() = 0;
 
+            virtual void bindMethod() = 0;
+
         public:
             MethodMockingContextBase(MockImpl<C, baseclasses...> &mock) : _mock(mock) { }
 
@@ -8663,6 +8694,7 @@ namespace fakeit {
             void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
                 ActualInvocationHandler<R, arglist...> *invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
+                bindMethod();
             }
 
             void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) {
@@ -8739,11 +8771,16 @@ namespace fakeit {
         protected:
 
             virtual RecordedMethodBody<R, arglist...> &getRecordedMethodBody() override {
-                return MethodMockingContextBase<R, arglist...>::_mock.template stubMethodIfNotStubbed<id>(
+                return MethodMockingContextBase<R, arglist...>::_mock.stubMethodIfNotStubbed(
                         MethodMockingContextBase<R, arglist...>::_mock._proxy,
                         MethodMockingContextImpl<R, arglist...>::_vMethod);
             }
 
+            virtual void bindMethod() override {
+                MethodMockingContextBase<R, arglist...>::_mock._proxy.template bindMethod<id>(
+                        MethodMockingContextImpl<R, arglist...>::_vMethod);
+            }
+
         public:
 
             UniqueMethodMockingContextImpl(MockImpl<C, baseclasses...> &mock, R (C::*vMethod)(arglist...))
@@ -8760,6 +8797,10 @@ namespace fakeit {
                         MethodMockingContextBase<void>::_mock._proxy);
             }
 
+            virtual void bindMethod() override {
+                MethodMockingContextBase<void>::_mock._proxy.bindDtor();
+            }
+
         public:
             virtual ~DtorMockingContextImpl() = default;
 
@@ -8790,10 +8831,17 @@ namespace fakeit {
 
 		void unmockedDtor() {}
 
+        static std::atomic<FakeitContext *> &fakesContext() {
+            static std::atomic<FakeitContext *> context{nullptr};
+            return context;
+        }
+
+
+
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            FakeitContext &fakeit = *fakesContext().load();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -8831,11 +8879,11 @@ namespace fakeit {
             return origMethodPtr;
         }
 
-        template<unsigned int id, typename R, typename ... arglist>
+        template<typename R, typename ... arglist>
         RecordedMethodBody<R, arglist...> &stubMethodIfNotStubbed(DynamicProxy<C, baseclasses...> &proxy,
                                                                   R (C::*vMethod)(arglist...)) {
             if (!proxy.isMethodStubbed(vMethod)) {
-                proxy.template stubMethod<id>(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
+                proxy.stubMethod(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
             }
             Destructible *d = proxy.getMethodMock(vMethod);
             RecordedMethodBody<R, arglist...> *methodMock = dynamic_cast<RecordedMethodBody<R, arglist...> *>(d);
@@ -9351,14 +9399,17 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+
+            std::vector<Invocation *> currentMatch;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, currentMatch, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), currentMatch.begin(), currentMatch.end());
             end = startSearchIndex;
             return true;
         }
@@ -9668,6 +9719,9 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
@@ -10074,6 +10128,24 @@ namespace fakeit {
 #define __func__ __FUNCTION__
 #endif
 
+namespace fakeit {
+    constexpr unsigned int textHash(const char *text, unsigned int begin, unsigned int end) {
+        return end - begin < 2
+               ? static_cast<unsigned char>(text[begin])
+               : textHash(text, begin, begin + (end - begin) / 2) * 1000003u
+                 ^ textHash(text, begin + (end - begin) / 2, end) * 2654435761u;
+    }
+
+
+
+    constexpr int methodId(unsigned int hash, unsigned int counter) {
+        return static_cast<int>((hash + counter) & 0x3fffffffu);
+    }
+}
+
+#define FAKEIT_METHOD_ID(text) \
+    fakeit::methodId(fakeit::textHash(text, 0, sizeof(text)), __COUNTER__)
+
 #define MOCK_TYPE(mock) \
     std::remove_reference<decltype((mock).get())>::type
 
@@ -10099,25 +10171,25 @@ namespace fakeit {
     (mock).dtor().setMethodDetails(#mock,"destructor")
 
 #define Method(mock, method) \
-    (mock).template stub<__COUNTER__>(&MOCK_TYPE(mock)::method).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method)>(&MOCK_TYPE(mock)::method).setMethodDetails(#mock,#method)
 
 #define OverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " " #prototype)>(OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const " #prototype)>(CONST_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define RefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " & " #prototype)>(REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const& " #prototype)>(CONST_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define RValRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " && " #prototype)>(R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstRValRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const&& " #prototype)>(CONST_R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define Verify(...) \
         Verify( __VA_ARGS__ ).setFileInfo(__FILE__, __LINE__, __func__)
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index 51d2998..a56ebc1 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2024-10-06 20:50:22.353913
+ *  Generated: 2026-11-16 09:51:44.117032
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -1213,6 +1213,7 @@ private:
 static fakeit::DefaultFakeit& Fakeit = fakeit::QTestFakeit::getInstance();
 
 
+#include <atomic>
 #include <type_traits>
 #include <unordered_set>
 
@@ -5878,7 +5879,9 @@ namespace fakeit {
         }
 
         ~Finally() {
-            _finallyClause();
+            if (_finallyClause) {
+                _finallyClause();
+            }
         }
     };
 }
@@ -6047,7 +6050,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6055,15 +6058,30 @@ namespace fakeit {
         {
         }
 
-        template<int id, typename R, typename ... arglist>
+        template<typename R, typename ... arglist>
         void stubMethod(R(C::*vMethod)(arglist...), MethodInvocationHandler<R, arglist...> *methodInvocationHandler) {
+            _methodMocks[VTUtils::getOffset(vMethod)].reset(methodInvocationHandler);
+        }
+
+        void stubDtor(MethodInvocationHandler<void> *methodInvocationHandler) {
+            _methodMocks[VTUtils::getDestructorOffset<C>()].reset(methodInvocationHandler);
+        }
+
+
+        template<int id, typename R, typename ... arglist>
+        void bindMethod(R(C::*vMethod)(arglist...)) {
             auto offset = VTUtils::getOffset(vMethod);
             MethodProxyCreator<R, arglist...> creator;
-            bind(creator.template createMethodProxy<id + 1>(offset), methodInvocationHandler);
+            if (!isBinded(offset)) {
+                bind(creator.template createMethodProxy<id + 1>(offset));
+            }
         }
 
-        void stubDtor(MethodInvocationHandler<void> *methodInvocationHandler) {
+        void bindDtor() {
             auto offset = VTUtils::getDestructorOffset<C>();
+            if (isBinded(offset)) {
+                return;
+            }
             MethodProxyCreator<void> creator;
 
 
@@ -6072,21 +6090,21 @@ namespace fakeit {
 
 
 #ifdef _MSC_VER
-            bindDtor(creator.createMethodProxyStatic<0>(offset), methodInvocationHandler);
+            bindDtor(creator.createMethodProxyStatic<0>(offset));
 #else
-            bindDtor(creator.createMethodProxy<0>(offset), methodInvocationHandler);
+            bindDtor(creator.createMethodProxy<0>(offset));
 #endif
         }
 
         template<typename R, typename ... arglist>
         bool isMethodStubbed(R(C::*vMethod)(arglist...)) {
             unsigned int offset = VTUtils::getOffset(vMethod);
-            return isBinded(offset);
+            return isStubbed(offset);
         }
 
         bool isDtorStubbed() {
             unsigned int offset = VTUtils::getDestructorOffset<C>();
-            return isBinded(offset);
+            return isStubbed(offset);
         }
 
         template<typename R, typename ... arglist>
@@ -6134,10 +6152,11 @@ namespace fakeit {
             auto fakeMethod = getFake().getVirtualTable().getMethod(offset);
             auto originalMethod = getOriginalVT().getMethod(offset);
 
-            getFake().setMethod(offset, originalMethod);
-            return Finally{[&, offset, fakeMethod](){
+            Finally restoreFakeMethod{[&, offset, fakeMethod](){
                 getFake().setMethod(offset, fakeMethod);
             }};
+            getFake().setMethod(offset, originalMethod);
+            return restoreFakeMethod;
         }
 
     private:
@@ -6173,15 +6192,13 @@ namespace fakeit {
             return reinterpret_cast<FakeObject<C, baseclasses...> &>(instance);
         }
 
-        void bind(const MethodProxy &methodProxy, Destructible *invocationHandler) {
+        void bind(const MethodProxy &methodProxy) {
             getFake().setMethod(methodProxy.getOffset(), methodProxy.getProxy());
-            _methodMocks[methodProxy.getOffset()].reset(invocationHandler);
             _offsets[methodProxy.getOffset()] = methodProxy.getId();
         }
 
-        void bindDtor(const MethodProxy &methodProxy, Destructible *invocationHandler) {
+        void bindDtor(const MethodProxy &methodProxy) {
             getFake().setDtor(methodProxy.getProxy());
-            _methodMocks[methodProxy.getOffset()].reset(invocationHandler);
             _offsets[methodProxy.getOffset()] = methodProxy.getId();
         }
 
@@ -6204,6 +6221,10 @@ namespace fakeit {
         }
 
         bool isBinded(unsigned int offset) {
+            return _offsets[offset] != std::numeric_limits<int>::max();
+        }
+
+        bool isStubbed(unsigned int offset) {
             std::shared_ptr<Destructible> ptr = _methodMocks[offset];
             return ptr.get() != nullptr;
         }
@@ -8004,18 +8025,15 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (frontAction().isDone())
+            {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
-            Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
-            std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
-            };
-            Finally onExit(finallyClause);
-            return action.invoke(args);
+            return frontAction().invoke(args);
         }
 
     private:
@@ -8037,6 +8055,10 @@ namespace fakeit {
             }
         };
 
+        Action<R, arglist...> &frontAction() {
+            return dynamic_cast<Action<R, arglist...> &>(*_recordedActions.front());
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
@@ -8390,8 +8412,15 @@ namespace fakeit {
         ::type setMatchingCriteria(matcherCreators &&... matcherCreator) {
             std::vector<Destructible *> matchers;
 
-            MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                MatchersCollector<0, arglist...> c(matchers);
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+                for (auto matcher : matchers) {
+                    delete matcher;
+                }
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
@@ -8558,6 +8587,7 @@ namespace fakeit {
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
             FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
             fake->getVirtualTable().setCookie(1, this);
+            fakesContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8593,7 +8623,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8656,6 +8685,8 @@ namespace fakeit {
 
             virtual RecordedMethodBody<R, arglist...> &getRecordedMethodBody() = 0;
 
+            virtual void bindMethod() = 0;
+
         public:
             MethodMockingContextBase(MockImpl<C, baseclasses...> &mock) : _mock(mock) { }
 
@@ -8664,6 +8695,7 @@ namespace fakeit {
             void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
                 ActualInvocationHandler<R, arglist...> *invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
+                bindMethod();
             }
 
             void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) {
@@ -8740,11 +8772,16 @@ namespace fakeit {
         protected:
 
             virtual RecordedMethodBody<R, arglist...> &getRecordedMethodBody() override {
-                return MethodMockingContextBase<R, arglist...>::_mock.template stubMethodIfNotStubbed<id>(
+                return MethodMockingContextBase<R, arglist...>::_mock.stubMethodIfNotStubbed(
                         MethodMockingContextBase<R, arglist...>::_mock._proxy,
                         MethodMockingContextImpl<R, arglist...>::_vMethod);
             }
 
+            virtual void bindMethod() override {
+                MethodMockingContextBase<R, arglist...>::_mock._proxy.template bindMethod<id>(
+                        MethodMockingContextImpl<R, arglist...>::_vMethod);
+            }
+
         public:
 
             UniqueMethodMockingContextImpl(MockImpl<C, baseclasses...> &mock, R (C::*vMethod)(arglist...))
@@ -8761,6 +8798,10 @@ namespace fakeit {
                         MethodMockingContextBase<void>::_mock._proxy);
             }
 
+            virtual void bindMethod() override {
+                MethodMockingContextBase<void>::_mock._proxy.bindDtor();
+            }
+
         public:
             virtual ~DtorMockingContextImpl() = default;
 
@@ -8791,10 +8832,17 @@ namespace fakeit {
 
 		void unmockedDtor() {}
 
+        static std::atomic<FakeitContext *> &fakesContext() {
+            static std::atomic<FakeitContext *> context{nullptr};
+            return context;
+        }
+
+
+
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            FakeitContext &fakeit = *fakesContext().load();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -8832,11 +8880,11 @@ namespace fakeit {
             return origMethodPtr;
         }
 
-        template<unsigned int id, typename R, typename ... arglist>
+        template<typename R, typename ... arglist>
         RecordedMethodBody<R, arglist...> &stubMethodIfNotStubbed(DynamicProxy<C, baseclasses...> &proxy,
                                                                   R (C::*vMethod)(arglist...)) {
             if (!proxy.isMethodStubbed(vMethod)) {
-                proxy.template stubMethod<id>(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
+                proxy.stubMethod(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
             }
             Destructible *d = proxy.getMethodMock(vMethod);
             RecordedMethodBody<R, arglist...> *methodMock = dynamic_cast<RecordedMethodBody<R, arglist...> *>(d);
@@ -9352,14 +9400,17 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+
+            std::vector<Invocation *> currentMatch;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, currentMatch, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), currentMatch.begin(), currentMatch.end());
             end = startSearchIndex;
             return true;
         }
@@ -9669,6 +9720,9 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
@@ -10075,6 +10129,24 @@ namespace fakeit {
 #define __func__ __FUNCTION__
 #endif
 
+namespace fakeit {
+    constexpr unsigned int textHash(const char *text, unsigned int begin, unsigned int end) {
+        return end - begin < 2
+               ? static_cast<unsigned char>(text[begin])
+               : textHash(text, begin, begin + (end - begin) / 2) * 1000003u
+                 ^ textHash(text, begin + (end - begin) / 2, end) * 2654435761u;
+    }
+
+
+
+    constexpr int methodId(unsigned int hash, unsigned int counter) {
+        return static_cast<int>((hash + counter) & 0x3fffffffu);
+    }
+}
+
+#define FAKEIT_METHOD_ID(text) \
+    fakeit::methodId(fakeit::textHash(text, 0, sizeof(text)), __COUNTER__)
+
 #define MOCK_TYPE(mock) \
     std::remove_reference<decltype((mock).get())>::type
 
@@ -10100,25 +10172,25 @@ namespace fakeit {
     (mock).dtor().setMethodDetails(#mock,"destructor")
 
 #define Method(mock, method) \
-    (mock).template stub<__COUNTER__>(&MOCK_TYPE(mock)::method).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method)>(&MOCK_TYPE(mock)::method).setMethodDetails(#mock,#method)
 
 #define OverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " " #prototype)>(OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const " #prototype)>(CONST_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define RefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " & " #prototype)>(REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const& " #prototype)>(CONST_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define RValRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " && " #prototype)>(R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstRValRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const&& " #prototype)>(CONST_R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define Verify(...) \
         Verify( __VA_ARGS__ ).setFileInfo(__FILE__, __LINE__, __func__)
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index 0484739..ab774e8 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2024-10-06 20:50:22.372950
+ *  Generated: 2026-11-16 09:51:44.063613
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -1281,6 +1281,7 @@ namespace fakeit {
 static fakeit::DefaultFakeit& Fakeit = fakeit::StandaloneFakeit::getInstance();
 
 
+#include <atomic>
 #include <type_traits>
 #include <unordered_set>
 
@@ -5946,7 +5947,9 @@ namespace fakeit {
         }
 
         ~Finally() {
-            _finallyClause();
+            if (_finallyClause) {
+                _finallyClause();
+            }
         }
     };
 }
@@ -6115,7 +6118,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6123,15 +6126,30 @@ namespace fakeit {
         {
         }
 
-        template<int id, typename R, typename ... arglist>
+        template<typename R, typename ... arglist>
         void stubMethod(R(C::*vMethod)(arglist...), MethodInvocationHandler<R, arglist...> *methodInvocationHandler) {
+            _methodMocks[VTUtils::getOffset(vMethod)].reset(methodInvocationHandler);
+        }
+
+        void stubDtor(MethodInvocationHandler<void> *methodInvocationHandler) {
+            _methodMocks[VTUtils::getDestructorOffset<C>()].reset(methodInvocationHandler);
+        }
+
+
+        template<int id, typename R, typename ... arglist>
+        void bindMethod(R(C::*vMethod)(arglist...)) {
             auto offset = VTUtils::getOffset(vMethod);
             MethodProxyCreator<R, arglist...> creator;
-            bind(creator.template createMethodProxy<id + 1>(offset), methodInvocationHandler);
+            if (!isBinded(offset)) {
+                bind(creator.template createMethodProxy<id + 1>(offset));
+            }
         }
 
-        void stubDtor(MethodInvocationHandler<void> *methodInvocationHandler) {
+        void bindDtor() {
             auto offset = VTUtils::getDestructorOffset<C>();
+            if (isBinded(offset)) {
+                return;
+            }
             MethodProxyCreator<void> creator;
 
 
@@ -6140,21 +6158,21 @@ namespace fakeit {
 
 
 #ifdef _MSC_VER
-            bindDtor(creator.createMethodProxyStatic<0>(offset), methodInvocationHandler);
+            bindDtor(creator.createMethodProxyStatic<0>(offset));
 #else
-            bindDtor(creator.createMethodProxy<0>(offset), methodInvocationHandler);
+            bindDtor(creator.createMethodProxy<0>(offset));
 #endif
         }
 
         template<typename R, typename ... arglist>
         bool isMethodStubbed(R(C::*vMethod)(arglist...)) {
             unsigned int offset = VTUtils::getOffset(vMethod);
-            return isBinded(offset);
+            return isStubbed(offset);
         }
 
         bool isDtorStubbed() {
             unsigned int offset = VTUtils::getDestructorOffset<C>();
-            return isBinded(offset);
+            return isStubbed(offset);
         }
 
         template<typename R, typename ... arglist>
@@ -6202,10 +6220,11 @@ namespace fakeit {
             auto fakeMethod = getFake().getVirtualTable().getMethod(offset);
             auto originalMethod = getOriginalVT().getMethod(offset);
 
-            getFake().setMethod(offset, originalMethod);
-            return Finally{[&, offset, fakeMethod](){
+            Finally restoreFakeMethod{[&, offset, fakeMethod](){
                 getFake().setMethod(offset, fakeMethod);
             }};
+            getFake().setMethod(offset, originalMethod);
+            return restoreFakeMethod;
         }
 
     private:
@@ -6241,15 +6260,13 @@ namespace fakeit {
             return reinterpret_cast<FakeObject<C, baseclasses...> &>(instance);
         }
 
-        void bind(const MethodProxy &methodProxy, Destructible *invocationHandler) {
+        void bind(const MethodProxy &methodProxy) {
             getFake().setMethod(methodProxy.getOffset(), methodProxy.getProxy());
-            _methodMocks[methodProxy.getOffset()].reset(invocationHandler);
             _offsets[methodProxy.getOffset()] = methodProxy.getId();
         }
 
-        void bindDtor(const MethodProxy &methodProxy, Destructible *invocationHandler) {
+        void bindDtor(const MethodProxy &methodProxy) {
             getFake().setDtor(methodProxy.getProxy());
-            _methodMocks[methodProxy.getOffset()].reset(invocationHandler);
             _offsets[methodProxy.getOffset()] = methodProxy.getId();
         }
 
@@ -6272,6 +6289,10 @@ namespace fakeit {
         }
 
         bool isBinded(unsigned int offset) {
+            return _offsets[offset] != std::numeric_limits<int>::max();
+        }
+
+        bool isStubbed(unsigned int offset) {
             std::shared_ptr<Destructible> ptr = _methodMocks[offset];
             return ptr.get() != nullptr;
         }
@@ -8072,18 +8093,15 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (frontAction().isDone())
+            {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
-            Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
-            std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
-            };
-            Finally onExit(finallyClause);
-            return action.invoke(args);
+            return frontAction().invoke(args);
         }
 
     private:
@@ -8105,6 +8123,10 @@ namespace fakeit {
             }
         };
 
+        Action<R, arglist...> &frontAction() {
+            return dynamic_cast<Action<R, arglist...> &>(*_recordedActions.front());
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
@@ -8458,8 +8480,15 @@ namespace fakeit {
         ::type setMatchingCriteria(matcherCreators &&... matcherCreator) {
             std::vector<Destructible *> matchers;
 
-            MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                MatchersCollector<0, arglist...> c(matchers);
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+                for (auto matcher : matchers) {
+                    delete matcher;
+                }
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
@@ -8626,6 +8655,7 @@ namespace fakeit {
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
             FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
             fake->getVirtualTable().setCookie(1, this);
+            fakesContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8661,7 +8691,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8724,6 +8753,8 @@ namespace fakeit {
 
             virtual RecordedMethodBody<R, arglist...> &getRecordedMethodBody() = 0;
 
+            virtual void bindMethod() = 0;
+
         public:
             MethodMockingContextBase(MockImpl<C, baseclasses...> &mock) : _mock(mock) { }
 
@@ -8732,6 +8763,7 @@ namespace fakeit {
             void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
                 ActualInvocationHandler<R, arglist...> *invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
+                bindMethod();
             }
 
             void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) {
@@ -8808,11 +8840,16 @@ namespace fakeit {
         protected:
 
             virtual RecordedMethodBody<R, arglist...> &getRecordedMethodBody() override {
-                return MethodMockingContextBase<R, arglist...>::_mock.template stubMethodIfNotStubbed<id>(
+                return MethodMockingContextBase<R, arglist...>::_mock.stubMethodIfNotStubbed(
                         MethodMockingContextBase<R, arglist...>::_mock._proxy,
                         MethodMockingContextImpl<R, arglist...>::_vMethod);
             }
 
+            virtual void bindMethod() override {
+                MethodMockingContextBase<R, arglist...>::_mock._proxy.template bindMethod<id>(
+                        MethodMockingContextImpl<R, arglist...>::_vMethod);
+            }
+
         public:
 
             UniqueMethodMockingContextImpl(MockImpl<C, baseclasses...> &mock, R (C::*vMethod)(arglist...))
@@ -8829,6 +8866,10 @@ namespace fakeit {
                         MethodMockingContextBase<void>::_mock._proxy);
             }
 
+            virtual void bindMethod() override {
+                MethodMockingContextBase<void>::_mock._proxy.bindDtor();
+            }
+
         public:
             virtual ~DtorMockingContextImpl() = default;
 
@@ -8859,10 +8900,17 @@ namespace fakeit {
 
 		void unmockedDtor() {}
 
+        static std::atomic<FakeitContext *> &fakesContext() {
+            static std::atomic<FakeitContext *> context{nullptr};
+            return context;
+        }
+
+
+
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            FakeitContext &fakeit = *fakesContext().load();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -8900,11 +8948,11 @@ namespace fakeit {
             return origMethodPtr;
         }
 
-        template<unsigned int id, typename R, typename ... arglist>
+        template<typename R, typename ... arglist>
         RecordedMethodBody<R, arglist...> &stubMethodIfNotStubbed(DynamicProxy<C, baseclasses...> &proxy,
                                                                   R (C::*vMethod)(arglist...)) {
             if (!proxy.isMethodStubbed(vMethod)) {
-                proxy.template stubMethod<id>(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
+                proxy.stubMethod(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
             }
             Destructible *d = proxy.getMethodMock(vMethod);
             RecordedMethodBody<R, arglist...> *methodMock = dynamic_cast<RecordedMethodBody<R, arglist...> *>(d);
@@ -9420,14 +9468,17 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+
+            std::vector<Invocation *> currentMatch;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, currentMatch, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), currentMatch.begin(), currentMatch.end());
             end = startSearchIndex;
             return true;
         }
@@ -9723,6 +9774,9 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
@@ -10129,6 +10183,24 @@ namespace fakeit {
 #define __func__ __FUNCTION__
 #endif
 
+namespace fakeit {
+    constexpr unsigned int textHash(const char *text, unsigned int begin, unsigned int end) {
+        return end - begin < 2
+               ? static_cast<unsigned char>(text[begin])
+               : textHash(text, begin, begin + (end - begin) / 2) * 1000003u
+                 ^ textHash(text, begin + (end - begin) / 2, end) * 2654435761u;
+    }
+
+
+
+    constexpr int methodId(unsigned int hash, unsigned int counter) {
+        return static_cast<int>((hash + counter) & 0x3fffffffu);
+    }
+}
+
+#define FAKEIT_METHOD_ID(text) \
+    fakeit::methodId(fakeit::textHash(text, 0, sizeof(text)), __COUNTER__)
+
 #define MOCK_TYPE(mock) \
     std::remove_reference<decltype((mock).get())>::type
 
@@ -10154,25 +10226,25 @@ namespace fakeit {
     (mock).dtor().setMethodDetails(#mock,"destructor")
 
 #define Method(mock, method) \
-    (mock).template stub<__COUNTER__>(&MOCK_TYPE(mock)::method).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method)>(&MOCK_TYPE(mock)::method).setMethodDetails(#mock,#method)
 
 #define OverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " " #prototype)>(OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const " #prototype)>(CONST_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define RefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " & " #prototype)>(REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const& " #prototype)>(CONST_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define RValRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " && " #prototype)>(R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstRValRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const&& " #prototype)>(CONST_R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define Verify(...) \
         Verify( __VA_ARGS__ ).setFileInfo(__FILE__, __LINE__, __func__)
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index a56df19..ebcd65f 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -2,7 +2,7 @@
 /*
  *  FakeIt - A Simplified C++ Mocking Framework
  *  Copyright (c) Eran Pe'er 2013
- *  Generated: 2024-10-06 20:50:22.391928
+ *  Generated: 2026-11-16 09:51:43.893618
  *  Distributed under the MIT License. Please refer to the LICENSE file at:
  *  https://github.com/eranpeer/FakeIt
  */
@@ -1264,6 +1264,7 @@ private:
 static fakeit::DefaultFakeit& Fakeit = fakeit::TpUnitFakeit::getInstance();
 
 
+#include <atomic>
 #include <type_traits>
 #include <unordered_set>
 
@@ -5929,7 +5930,9 @@ namespace fakeit {
         }
 
         ~Finally() {
-            _finallyClause();
+            if (_finallyClause) {
+                _finallyClause();
+            }
         }
     };
 }
@@ -6098,7 +6101,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6106,15 +6109,30 @@ namespace fakeit {
         {
         }
 
-        template<int id, typename R, typename ... arglist>
+        template<typename R, typename ... arglist>
         void stubMethod(R(C::*vMethod)(arglist...), MethodInvocationHandler<R, arglist...> *methodInvocationHandler) {
+            _methodMocks[VTUtils::getOffset(vMethod)].reset(methodInvocationHandler);
+        }
+
+        void stubDtor(MethodInvocationHandler<void> *methodInvocationHandler) {
+            _methodMocks[VTUtils::getDestructorOffset<C>()].reset(methodInvocationHandler);
+        }
+
+
+        template<int id, typename R, typename ... arglist>
+        void bindMethod(R(C::*vMethod)(arglist...)) {
             auto offset = VTUtils::getOffset(vMethod);
             MethodProxyCreator<R, arglist...> creator;
-            bind(creator.template createMethodProxy<id + 1>(offset), methodInvocationHandler);
+            if (!isBinded(offset)) {
+                bind(creator.template createMethodProxy<id + 1>(offset));
+            }
         }
 
-        void stubDtor(MethodInvocationHandler<void> *methodInvocationHandler) {
+        void bindDtor() {
             auto offset = VTUtils::getDestructorOffset<C>();
+            if (isBinded(offset)) {
+                return;
+            }
             MethodProxyCreator<void> creator;
 
 
@@ -6123,21 +6141,21 @@ namespace fakeit {
 
 
 #ifdef _MSC_VER
-            bindDtor(creator.createMethodProxyStatic<0>(offset), methodInvocationHandler);
+            bindDtor(creator.createMethodProxyStatic<0>(offset));
 #else
-            bindDtor(creator.createMethodProxy<0>(offset), methodInvocationHandler);
+            bindDtor(creator.createMethodProxy<0>(offset));
 #endif
         }
 
         template<typename R, typename ... arglist>
         bool isMethodStubbed(R(C::*vMethod)(arglist...)) {
             unsigned int offset = VTUtils::getOffset(vMethod);
-            return isBinded(offset);
+            return isStubbed(offset);
         }
 
         bool isDtorStubbed() {
             unsigned int offset = VTUtils::getDestructorOffset<C>();
-            return isBinded(offset);
+            return isStubbed(offset);
         }
 
         template<typename R, typename ... arglist>
@@ -6185,10 +6203,11 @@ namespace fakeit {
             auto fakeMethod = getFake().getVirtualTable().getMethod(offset);
             auto originalMethod = getOriginalVT().getMethod(offset);
 
-            getFake().setMethod(offset, originalMethod);
-            return Finally{[&, offset, fakeMethod](){
+            Finally restoreFakeMethod{[&, offset, fakeMethod](){
                 getFake().setMethod(offset, fakeMethod);
             }};
+            getFake().setMethod(offset, originalMethod);
+            return restoreFakeMethod;
         }
 
     private:
@@ -6224,15 +6243,13 @@ namespace fakeit {
             return reinterpret_cast<FakeObject<C, baseclasses...> &>(instance);
         }
 
-        void bind(const MethodProxy &methodProxy, Destructible *invocationHandler) {
+        void bind(const MethodProxy &methodProxy) {
             getFake().setMethod(methodProxy.getOffset(), methodProxy.getProxy());
-            _methodMocks[methodProxy.getOffset()].reset(invocationHandler);
             _offsets[methodProxy.getOffset()] = methodProxy.getId();
         }
 
-        void bindDtor(const MethodProxy &methodProxy, Destructible *invocationHandler) {
+        void bindDtor(const MethodProxy &methodProxy) {
             getFake().setDtor(methodProxy.getProxy());
-            _methodMocks[methodProxy.getOffset()].reset(invocationHandler);
             _offsets[methodProxy.getOffset()] = methodProxy.getId();
         }
 
@@ -6255,6 +6272,10 @@ namespace fakeit {
         }
 
         bool isBinded(unsigned int offset) {
+            return _offsets[offset] != std::numeric_limits<int>::max();
+        }
+
+        bool isStubbed(unsigned int offset) {
             std::shared_ptr<Destructible> ptr = _methodMocks[offset];
             return ptr.get() != nullptr;
         }
@@ -8055,18 +8076,15 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (frontAction().isDone())
+            {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
-            Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
-            std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
-            };
-            Finally onExit(finallyClause);
-            return action.invoke(args);
+            return frontAction().invoke(args);
         }
 
     private:
@@ -8088,6 +8106,10 @@ namespace fakeit {
             }
         };
 
+        Action<R, arglist...> &frontAction() {
+            return dynamic_cast<Action<R, arglist...> &>(*_recordedActions.front());
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
@@ -8441,8 +8463,15 @@ namespace fakeit {
         ::type setMatchingCriteria(matcherCreators &&... matcherCreator) {
             std::vector<Destructible *> matchers;
 
-            MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                MatchersCollector<0, arglist...> c(matchers);
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+                for (auto matcher : matchers) {
+                    delete matcher;
+                }
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
@@ -8609,6 +8638,7 @@ namespace fakeit {
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
             FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
             fake->getVirtualTable().setCookie(1, this);
+            fakesContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8644,7 +8674,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8707,6 +8736,8 @@ namespace fakeit {
 
             virtual RecordedMethodBody<R, arglist...> &getRecordedMethodBody() = 0;
 
+            virtual void bindMethod() = 0;
+
         public:
             MethodMockingContextBase(MockImpl<C, baseclasses...> &mock) : _mock(mock) { }
 
@@ -8715,6 +8746,7 @@ namespace fakeit {
             void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
                 ActualInvocationHandler<R, arglist...> *invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
+                bindMethod();
             }
 
             void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) {
@@ -8791,11 +8823,16 @@ namespace fakeit {
         protected:
 
             virtual RecordedMethodBody<R, arglist...> &getRecordedMethodBody() override {
-                return MethodMockingContextBase<R, arglist...>::_mock.template stubMethodIfNotStubbed<id>(
+                return MethodMockingContextBase<R, arglist...>::_mock.stubMethodIfNotStubbed(
                         MethodMockingContextBase<R, arglist...>::_mock._proxy,
                         MethodMockingContextImpl<R, arglist...>::_vMethod);
             }
 
+            virtual void bindMethod() override {
+                MethodMockingContextBase<R, arglist...>::_mock._proxy.template bindMethod<id>(
+                        MethodMockingContextImpl<R, arglist...>::_vMethod);
+            }
+
         public:
 
             UniqueMethodMockingContextImpl(MockImpl<C, baseclasses...> &mock, R (C::*vMethod)(arglist...))
@@ -8812,6 +8849,10 @@ namespace fakeit {
                         MethodMockingContextBase<void>::_mock._proxy);
             }
 
+            virtual void bindMethod() override {
+                MethodMockingContextBase<void>::_mock._proxy.bindDtor();
+            }
+
         public:
             virtual ~DtorMockingContextImpl() = default;
 
@@ -8842,10 +8883,17 @@ namespace fakeit {
 
 		void unmockedDtor() {}
 
+        static std::atomic<FakeitContext *> &fakesContext() {
+            static std::atomic<FakeitContext *> context{nullptr};
+            return context;
+        }
+
+
+
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            FakeitContext &fakeit = *fakesContext().load();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -8883,11 +8931,11 @@ namespace fakeit {
             return origMethodPtr;
         }
 
-        template<unsigned int id, typename R, typename ... arglist>
+        template<typename R, typename ... arglist>
         RecordedMethodBody<R, arglist...> &stubMethodIfNotStubbed(DynamicProxy<C, baseclasses...> &proxy,
                                                                   R (C::*vMethod)(arglist...)) {
             if (!proxy.isMethodStubbed(vMethod)) {
-                proxy.template stubMethod<id>(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
+                proxy.stubMethod(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
             }
             Destructible *d = proxy.getMethodMock(vMethod);
             RecordedMethodBody<R, arglist...> *methodMock = dynamic_cast<RecordedMethodBody<R, arglist...> *>(d);
@@ -9403,14 +9451,17 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+
+            std::vector<Invocation *> currentMatch;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, currentMatch, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), currentMatch.begin(), currentMatch.end());
             end = startSearchIndex;
             return true;
         }
@@ -9706,6 +9757,9 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
@@ -10112,6 +10166,24 @@ namespace fakeit {
 #define __func__ __FUNCTION__
 #endif
 
+namespace fakeit {
+    constexpr unsigned int textHash(const char *text, unsigned int begin, unsigned int end) {
+        return end - begin < 2
+               ? static_cast<unsigned char>(text[begin])
+               : textHash(text, begin, begin + (end - begin) / 2) * 1000003u
+                 ^ textHash(text, begin + (end - begin) / 2, end) * 2654435761u;
+    }
+
+
+
+    constexpr int methodId(unsigned int hash, unsigned int counter) {
+        return static_cast<int>((hash + counter) & 0x3fffffffu);
+    }
+}
+
+#define FAKEIT_METHOD_ID(text) \
+    fakeit::methodId(fakeit::textHash(text, 0, sizeof(text)), __COUNTER__)
+
 #define MOCK_TYPE(mock) \
     std::remove_reference<decltype((mock).get())>::type
 
@@ -10137,25 +10209,25 @@ namespace fakeit {
     (mock).dtor().setMethodDetails(#mock,"destructor")
 
 #define Method(mock, method) \
-    (mock).template stub<__COUNTER__>(&MOCK_TYPE(mock)::method).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method)>(&MOCK_TYPE(mock)::method).setMethodDetails(#mock,#method)
 
 #define OverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " " #prototype)>(OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const " #prototype)>(CONST_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define RefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " & " #prototype)>(REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const& " #prototype)>(CONST_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define RValRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " && " #prototype)>(R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define ConstRValRefOverloadedMethod(mock, method, prototype) \
-    (mock).template stub<__COUNTER__>(CONST_R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
+    (mock).template stub<FAKEIT_METHOD_ID(#method " const&& " #prototype)>(CONST_R_VAL_REF_OVERLOADED_METHOD_PTR( mock , method, prototype )).setMethodDetails(#mock,#method)
 
 #define Verify(...) \
         Verify( __VA_ARGS__ ).setFileInfo(__FILE__, __LINE__, __func__)
-- 
2.43.0

