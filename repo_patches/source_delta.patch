From 84145620b0ed264c9b6a5b5d495ec9d20433c930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:16 +0000
Subject: [PATCH 01/14] fix: accept any number of matches for AtLeast(0)

Zero was stored as an exact count, so AtLeast(0) failed as soon as a match existed.
---
 include/fakeit/SequenceVerificationProgress.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/fakeit/SequenceVerificationProgress.hpp b/include/fakeit/SequenceVerificationProgress.hpp
index 0c12d3a..8d57a07 100644
--- a/include/fakeit/SequenceVerificationProgress.hpp
+++ b/include/fakeit/SequenceVerificationProgress.hpp
@@ -112,6 +112,9 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
-- 
2.43.0


From 4aa54d372efd3c4395b59b8e03b6b8d97d57c3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:35 +0000
Subject: [PATCH 02/14] fix: do not mark invocations of an incomplete pattern
 match as verified

After the last complete match, invocations matching only a prefix of the
pattern were collected too, so VerifyNoOtherInvocations missed them.
---
 include/fakeit/MatchAnalysis.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fakeit/MatchAnalysis.hpp b/include/fakeit/MatchAnalysis.hpp
index 8cac066..5374201 100644
--- a/include/fakeit/MatchAnalysis.hpp
+++ b/include/fakeit/MatchAnalysis.hpp
@@ -46,14 +46,16 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> currentMatch;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, currentMatch, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), currentMatch.begin(), currentMatch.end());
             end = startSearchIndex;
             return true;
         }
-- 
2.43.0


From 20cf36606e32e8b4f4ad0e92984d8ab91aeb50da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:53 +0000
Subject: [PATCH 03/14] fix: mark all method ids as unused when a mock is reset

The ids were zero after Reset(), which is the id of the destructor, so a
destructor stubbed after a reset was looked up in the wrong slot.
---
 include/mockutils/DynamicProxy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mockutils/DynamicProxy.hpp b/include/mockutils/DynamicProxy.hpp
index 0d06a71..f7cea28 100644
--- a/include/mockutils/DynamicProxy.hpp
+++ b/include/mockutils/DynamicProxy.hpp
@@ -93,7 +93,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
-- 
2.43.0


From 69607e6efb87f8d47ed6b9436cb526d17208a31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:11 +0000
Subject: [PATCH 04/14] fix: consume each action exactly its number of times

An action calling the same method again was never consumed, or the next
action was dropped instead of it. An action repeated zero times was
repeated for ever.
---
 include/fakeit/ActionSequence.hpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/fakeit/ActionSequence.hpp b/include/fakeit/ActionSequence.hpp
index b1f6018..f94b1df 100644
--- a/include/fakeit/ActionSequence.hpp
+++ b/include/fakeit/ActionSequence.hpp
@@ -39,18 +39,14 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+            // A nested call may arrive while the last repetition of the front action is still running.
+            removeDoneActions();
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
-            Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
             std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
+                removeDoneActions();
             };
             Finally onExit(finallyClause);
-            return action.invoke(args);
+            return asAction(*destructablePtr).invoke(args);
         }
 
     private:
@@ -72,6 +68,17 @@ namespace fakeit {
             }
         };
 
+        static Action<R, arglist...> &asAction(Destructible &destructable) {
+            return dynamic_cast<Action<R, arglist...> &>(destructable);
+        }
+
+        void removeDoneActions() {
+            while (asAction(*_recordedActions.front()).isDone()) {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
-- 
2.43.0


From 7606e6d743c2393ed8f899c7c0e170d06bcb07ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:32 +0000
Subject: [PATCH 05/14] fix: keep data members when the invocation history is
 cleared

ClearInvocationHistory() zeroed the data members area, overwriting live
objects created by Stub().
---
 include/fakeit/MockImpl.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/fakeit/MockImpl.hpp b/include/fakeit/MockImpl.hpp
index c8d6e35..cc72ae6 100644
--- a/include/fakeit/MockImpl.hpp
+++ b/include/fakeit/MockImpl.hpp
@@ -72,7 +72,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
-- 
2.43.0


From c86227e680b739ce988e44ed6e1c9fdc617bcb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:51 +0000
Subject: [PATCH 06/14] fix: keep the dynamic type of a spied object

The cloned virtual table always carried the type_info of the mocked type,
so typeid and dynamic_cast changed when spying a derived object through
its base class.
---
 include/mockutils/gcc/VirtualTable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mockutils/gcc/VirtualTable.hpp b/include/mockutils/gcc/VirtualTable.hpp
index 79d0e10..d542687 100644
--- a/include/mockutils/gcc/VirtualTable.hpp
+++ b/include/mockutils/gcc/VirtualTable.hpp
@@ -75,7 +75,7 @@ namespace fakeit {
 
         void copyFrom(VirtualTable<C, baseclasses...> &from) {
             unsigned int size = VTUtils::getVTSize<C>();
-            //firstMethod[-1] = from.firstMethod[-1]; // copy type_info
+            _firstMethod[-1] = from._firstMethod[-1]; // copy type_info
             for (size_t i = 0; i < size; ++i) {
                 _firstMethod[i] = from.getMethod(i);
             }
-- 
2.43.0


From 9a06bf6134788b01d3fda673a6ae1dabdb16d5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:53 +0000
Subject: [PATCH 07/14] fix: use the custom event formatter in the Catch
 configuration

The adapter was bound to the default formatter, so a formatter set with
setCustomEventFormatter() was ignored.
---
 config/catch/CatchFakeit.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/catch/CatchFakeit.hpp b/config/catch/CatchFakeit.hpp
index 616a369..1261961 100644
--- a/config/catch/CatchFakeit.hpp
+++ b/config/catch/CatchFakeit.hpp
@@ -92,7 +92,7 @@ namespace fakeit {
 
         virtual ~CatchFakeit() = default;
 
-        CatchFakeit() : _formatter(), _catchAdapter(_formatter) {}
+        CatchFakeit() : _formatter(), _catchAdapter(*this) {}
 
         static CatchFakeit &getInstance() {
             static CatchFakeit instance;
-- 
2.43.0


From bce02416de391718370342bbc8980f3366b1b204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:50 +0000
Subject: [PATCH 08/14] fix: allow a stored method context to be used in
 several stubbings

Stubbing twice with the same context, or changing its matcher after a
stubbing, freed the recorded actions or the matcher twice.
---
 include/fakeit/MethodMockingContext.hpp | 22 ++++++++--------------
 include/fakeit/MockImpl.hpp             |  4 ++--
 include/fakeit/RecordedMethodBody.hpp   | 12 ++++++------
 3 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/include/fakeit/MethodMockingContext.hpp b/include/fakeit/MethodMockingContext.hpp
index bf1db0b..3b4bfa6 100644
--- a/include/fakeit/MethodMockingContext.hpp
+++ b/include/fakeit/MethodMockingContext.hpp
@@ -57,8 +57,8 @@ namespace fakeit {
 
             virtual std::string getMethodName() = 0;
 
-            virtual void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) = 0;
+            virtual void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) = 0;
 
             virtual void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) = 0;
 
@@ -73,9 +73,8 @@ namespace fakeit {
         class Implementation {
 
             Context *_stubbingContext;
-            ActionSequence<R, arglist...> *_recordedActionSequence;
-            typename ActualInvocation<arglist...>::Matcher *_invocationMatcher;
-            bool _commited;
+            std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
+            std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> _invocationMatcher;
 
             Context &getStubbingContext() const {
                 return *_stubbingContext;
@@ -88,16 +87,11 @@ namespace fakeit {
                       _recordedActionSequence(new ActionSequence<R, arglist...>()),
                       _invocationMatcher
                               {
-                                      new DefaultInvocationMatcher<arglist...>()}, _commited(false) {
+                                      new DefaultInvocationMatcher<arglist...>()} {
             }
 
             ~Implementation() {
                 delete _stubbingContext;
-                if (!_commited) {
-                    // no commit. delete the created objects.
-                    delete _recordedActionSequence;
-                    delete _invocationMatcher;
-                }
             }
 
             ActionSequence<R, arglist...> &getRecordedActionSequence() {
@@ -134,7 +128,8 @@ namespace fakeit {
 
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                _commited = true;
+                // the committed sequence belongs to the method now, the next stubbing starts a new one.
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -163,8 +158,7 @@ namespace fakeit {
             }
 
             void setInvocationMatcher(typename ActualInvocation<arglist...>::Matcher *matcher) {
-                delete _invocationMatcher;
-                _invocationMatcher = matcher;
+                _invocationMatcher.reset(matcher);
             }
         };
 
diff --git a/include/fakeit/MockImpl.hpp b/include/fakeit/MockImpl.hpp
index cc72ae6..58872c1 100644
--- a/include/fakeit/MockImpl.hpp
+++ b/include/fakeit/MockImpl.hpp
@@ -139,8 +139,8 @@ namespace fakeit {
 
             virtual ~MethodMockingContextBase() = default;
 
-            void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
             }
 
diff --git a/include/fakeit/RecordedMethodBody.hpp b/include/fakeit/RecordedMethodBody.hpp
index 201000c..c57719b 100644
--- a/include/fakeit/RecordedMethodBody.hpp
+++ b/include/fakeit/RecordedMethodBody.hpp
@@ -32,8 +32,8 @@ namespace fakeit {
 
             virtual ~MatchedInvocationHandler() = default;
 
-            MatchedInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) :
+            MatchedInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) :
                     _matcher{matcher}, _invocationHandler{invocationHandler} {
             }
 
@@ -63,8 +63,8 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _actualInvocations;
 
         MatchedInvocationHandler *buildMatchedInvocationHandler(
-                typename ActualInvocation<arglist...>::Matcher *invocationMatcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> invocationMatcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             return new MatchedInvocationHandler(invocationMatcher, invocationHandler);
         }
 
@@ -107,8 +107,8 @@ namespace fakeit {
             return method.id() == _method.id();
         }
 
-        void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-            ActualInvocationHandler<R, arglist...> *invocationHandler) {
+        void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+            std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             ActualInvocationHandler<R, arglist...> *mock = buildMatchedInvocationHandler(matcher, invocationHandler);
             std::shared_ptr<Destructible> destructable{mock};
             _invocationHandlers.push_back(destructable);
-- 
2.43.0


From 43f1010a3b657ded2c32be7980bb915b75683ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:09 +0000
Subject: [PATCH 09/14] fix: report unmocked calls of methods that return
 objects by value

The handler for unmocked methods took the mock from its this pointer. For a
method returning an object in memory that pointer is the address of the
result, so the call crashed instead of being reported.
---
 include/fakeit/MockImpl.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/fakeit/MockImpl.hpp b/include/fakeit/MockImpl.hpp
index 58872c1..da5bafe 100644
--- a/include/fakeit/MockImpl.hpp
+++ b/include/fakeit/MockImpl.hpp
@@ -121,7 +121,16 @@ namespace fakeit {
         MockImpl(FakeitContext &fakeit, C &obj, bool isSpy)
                 : _instanceOwner(isSpy ? nullptr : asFakeObject(&obj))
 				, _proxy{obj}
-				, _fakeit(fakeit) {}
+				, _fakeit(fakeit) {
+            unmockedContext() = &fakeit;
+        }
+
+        // unmocked() can't use its "this": when the invoked method returns an object by value,
+        // the first hidden argument is the address of the result and not the mocked object.
+        static FakeitContext *&unmockedContext() {
+            static FakeitContext *context = nullptr;
+            return context;
+        }
 
         static FakeObject<C, baseclasses...>* asFakeObject(void* instance){
             return reinterpret_cast<FakeObject<C, baseclasses...> *>(instance);
@@ -272,7 +281,7 @@ namespace fakeit {
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            auto &fakeit = *unmockedContext();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
-- 
2.43.0


From b7f75a1f3ef96c589683f80b82c6a235dc427b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:29 +0000
Subject: [PATCH 10/14] fix: release collected matchers when a later one cannot
 be created

---
 include/fakeit/MethodMockingContext.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/fakeit/MethodMockingContext.hpp b/include/fakeit/MethodMockingContext.hpp
index 3b4bfa6..ef909c8 100644
--- a/include/fakeit/MethodMockingContext.hpp
+++ b/include/fakeit/MethodMockingContext.hpp
@@ -251,7 +251,13 @@ namespace fakeit {
             std::vector<Destructible *> matchers;
 
             MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+                for (auto matcher : matchers)
+                    delete matcher;
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
-- 
2.43.0


From d75aa815c8521f550577005f554cbf9ec21390a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:07 +0000
Subject: [PATCH 11/14] fix: let methods with wide character parameters be
 mocked in C++20

C++20 deletes the stream insertion of wchar_t, char16_t and char32_t values
and pointers into a narrow stream. The streamability test assumed that all
arithmetic and pointer types can be inserted, so mocking such a method did
not compile. Only MSVC needs that shortcut.
---
 include/mockutils/type_utils.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/mockutils/type_utils.hpp b/include/mockutils/type_utils.hpp
index de83c90..ac0ce00 100644
--- a/include/mockutils/type_utils.hpp
+++ b/include/mockutils/type_utils.hpp
@@ -58,8 +58,10 @@ namespace fakeit {
     public:
         // capture std::ostream operator<< members for the benefit of MSVC
         static const bool value =
+#if defined(_MSC_VER)
             std::is_arithmetic<T>::value ||
             std::is_pointer<T>::value ||
+#endif
             std::is_same<decltype(test(*(std::ostream *)nullptr,
                 std::declval<T>())), std::ostream &>::value;
     };
-- 
2.43.0


From 6a55cc4cde7139ac9920ce60dbeab89fb0331698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:44 +0000
Subject: [PATCH 12/14] fix: leave arguments that ReturnAndSet does not
 designate untouched

The arguments after the designated ones were passed on by value, so by-value
and rvalue reference arguments were moved out of the recorded call or of the
caller's object, and arguments that cannot be copied did not compile.
---
 include/fakeit/StubbingProgress.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fakeit/StubbingProgress.hpp b/include/fakeit/StubbingProgress.hpp
index a93252e..34b3ffb 100644
--- a/include/fakeit/StubbingProgress.hpp
+++ b/include/fakeit/StubbingProgress.hpp
@@ -427,7 +427,7 @@ namespace fakeit {
         template<>
         struct ParamWalker<0> {
             template<typename ... valuelist, typename ... arglist>
-            static void Assign(ArgumentsTuple<valuelist...>, arglist... ) {}
+            static void Assign(ArgumentsTuple<valuelist...>, arglist &&...) {}
         };
 
         template<int arg_index, int check_index>
@@ -469,7 +469,7 @@ namespace fakeit {
         template<int arg_index>
         struct ArgLocator<arg_index, -1> {
             template<typename current_arg, typename T>
-            static void AssignArg(current_arg, T) {
+            static void AssignArg(current_arg &&, T) {
             }
         };
 
-- 
2.43.0


From b6e40ed433847d27898254c0abbcdac6d87e577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:28 +0000
Subject: [PATCH 13/14] fix: reject conditions that do not fit any but the last
 parameter

A condition of a type that cannot be compared with its parameter selected the
overload taking several conditions with an empty rest. That overload then
called itself without end, so the program compiled and crashed when it ran.
The overload now needs at least two conditions.
---
 include/fakeit/MatchersCollector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fakeit/MatchersCollector.hpp b/include/fakeit/MatchersCollector.hpp
index 8c7c25e..b1bd242 100644
--- a/include/fakeit/MatchersCollector.hpp
+++ b/include/fakeit/MatchersCollector.hpp
@@ -74,11 +74,11 @@ namespace fakeit {
             _matchers.push_back(d);
         }
 
-        template<typename Head, typename ...Tail>
-        void CollectMatchers(Head &&head, Tail &&... tail) {
+        template<typename Head, typename Next, typename ...Tail>
+        void CollectMatchers(Head &&head, Next &&next, Tail &&... tail) {
             CollectMatchers(std::forward<Head>(head));
             MatchersCollector<index + 1, arglist...> c(_matchers);
-            c.CollectMatchers(std::forward<Tail>(tail)...);
+            c.CollectMatchers(std::forward<Next>(next), std::forward<Tail>(tail)...);
         }
 
     };
-- 
2.43.0


From 75fb2debc372fff0d4d183ebec2a1dccd35502f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:41:04 +0000
Subject: [PATCH 14/14] fix: drop the actions of a cancelled stubbing statement

A When statement cancelled by an exception left its actions in the
method's context. When the context was kept in a variable, the next
statement on it started with those actions.
---
 include/fakeit/MethodMockingContext.hpp | 13 +++++++++++--
 include/fakeit/WhenFunctor.hpp          |  7 +++++--
 include/fakeit/Xaction.hpp              | 13 +++++++++++++
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/include/fakeit/MethodMockingContext.hpp b/include/fakeit/MethodMockingContext.hpp
index ef909c8..970b00a 100644
--- a/include/fakeit/MethodMockingContext.hpp
+++ b/include/fakeit/MethodMockingContext.hpp
@@ -70,7 +70,7 @@ namespace fakeit {
         };
 
     private:
-        class Implementation {
+        class Implementation : public Rollback {
 
             Context *_stubbingContext;
             std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
@@ -90,7 +90,7 @@ namespace fakeit {
                                       new DefaultInvocationMatcher<arglist...>()} {
             }
 
-            ~Implementation() {
+            ~Implementation() override {
                 delete _stubbingContext;
             }
 
@@ -132,6 +132,11 @@ namespace fakeit {
                 _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
             }
 
+            void rollback() override {
+                // the actions of a cancelled stubbing must not become part of the next one.
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
+            }
+
             void appendAction(Action<R, arglist...> *action) {
                 getRecordedActionSequence().AppendDo(action);
             }
@@ -217,6 +222,10 @@ namespace fakeit {
             _impl->commit();
         }
 
+        std::weak_ptr<Rollback> getRollback() override {
+            return _impl;
+        }
+
         void setMethodDetails(std::string mockName, std::string methodName) {
             _impl->setMethodDetails(mockName, methodName);
         }
diff --git a/include/fakeit/WhenFunctor.hpp b/include/fakeit/WhenFunctor.hpp
index 21bb34b..a9c9620 100644
--- a/include/fakeit/WhenFunctor.hpp
+++ b/include/fakeit/WhenFunctor.hpp
@@ -27,6 +27,8 @@ namespace fakeit {
             virtual ~StubbingChange() FAKEIT_THROWS {
 
                 if (UncaughtException()) {
+                    if (auto rollback = _rollback.lock())
+                        rollback->rollback();
                     return;
                 }
 
@@ -34,16 +36,17 @@ namespace fakeit {
             }
 
             StubbingChange(const StubbingChange &other) :
-                    _xaction(other._xaction) {
+                    _xaction(other._xaction), _rollback(other._rollback) {
             }
 
         private:
 
             StubbingChange(Xaction &xaction)
-                    : _xaction(xaction) {
+                    : _xaction(xaction), _rollback(xaction.getRollback()) {
             }
 
             Xaction &_xaction;
+            std::weak_ptr<Rollback> _rollback;
         };
 
     public:
diff --git a/include/fakeit/Xaction.hpp b/include/fakeit/Xaction.hpp
index be95c27..0a0e169 100644
--- a/include/fakeit/Xaction.hpp
+++ b/include/fakeit/Xaction.hpp
@@ -8,9 +8,22 @@
  */
 #pragma once
 
+#include <memory>
+
 namespace fakeit {
 
+    struct Rollback {
+        virtual ~Rollback() = default;
+
+        virtual void rollback() = 0;
+    };
+
     struct Xaction {
         virtual void commit() = 0;
+
+        /**
+         * Used to cancel, the context may be gone by then.
+         */
+        virtual std::weak_ptr<Rollback> getRollback() = 0;
     };
 }
-- 
2.43.0

