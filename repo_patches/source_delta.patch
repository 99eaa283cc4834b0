From b88d03f2e4c1599fb8811277a1d5ae27044010d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:46 +0000
Subject: [PATCH 1/7] fix: times(usize::MAX), times(..=usize::MAX) and
 times(a..=usize::MAX) overflowed

---
 mockall/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index 88b33dc..e74ddfa 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1524,7 +1524,7 @@ impl Default for TimesRange {
 
 impl From<usize> for TimesRange {
     fn from(n: usize) -> TimesRange {
-        TimesRange(n..(n+1))
+        TimesRange(n..n.saturating_add(1))
     }
 }
 
@@ -1550,7 +1550,7 @@ impl From<RangeFull> for TimesRange {
 impl From<RangeInclusive<usize>> for TimesRange {
     fn from(r: RangeInclusive<usize>) -> TimesRange {
         assert!(r.end() >= r.start(), "Backwards range");
-        TimesRange(*r.start()..*r.end() + 1)
+        TimesRange(*r.start()..r.end().saturating_add(1))
     }
 }
 
@@ -1562,7 +1562,7 @@ impl From<RangeTo<usize>> for TimesRange {
 
 impl From<RangeToInclusive<usize>> for TimesRange {
     fn from(r: RangeToInclusive<usize>) -> TimesRange {
-        TimesRange(0..r.end + 1)
+        TimesRange(0..r.end.saturating_add(1))
     }
 }
 
-- 
2.43.0


From 5fde913f97017742201f1c5719d68202fbce1e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:46 +0000
Subject: [PATCH 2/7] fix: reject the empty range times(..0), like every other
 empty range

---
 mockall/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index e74ddfa..893cf72 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1556,6 +1556,7 @@ impl From<RangeInclusive<usize>> for TimesRange {
 
 impl From<RangeTo<usize>> for TimesRange {
     fn from(r: RangeTo<usize>) -> TimesRange {
+        assert!(r.end > 0, "Backwards range");
         TimesRange(0..r.end)
     }
 }
-- 
2.43.0


From d3db093dd1f6288227db254546e26662305b5097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:10 +0000
Subject: [PATCH 3/7] fix: an expectation with times(0) blocked the rest of its
 Sequence

in_sequence on an expectation that must not be called took a place in the
sequence that no call could ever complete, so every later expectation of the
sequence panicked with a sequence violation.
---
 mockall_derive/src/mock_function.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 3a7a484..50a91a3 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -972,7 +972,11 @@ impl ToTokens for Common<'_> {
                 {
                     assert!(self.times.is_exact(),
                         "Only Expectations with an exact call count have sequences");
-                    self.seq_handle = Some(__mockall_seq.next_handle());
+                    // An expectation that must never be called is satisfied from
+                    // the start.  Nothing would ever complete its place in the
+                    // sequence, so don't take one.
+                    self.seq_handle = (self.times.maximum() > 0)
+                        .then(|| __mockall_seq.next_handle());
                     self
                 }
 
-- 
2.43.0


From 2a2c19a986b5b1f91556e52a6ca29851b3368585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:12 +0000
Subject: [PATCH 4/7] fix: calling a return_once_st expectation from another
 thread aborted the process

Fragile::into_inner panics on the wrong thread, and the closure had already
been taken out of the expectation, so that its destructor panicked during the
unwinding.  Check the thread first.
---
 mockall_derive/src/mock_function.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 50a91a3..0429ec3 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -1974,7 +1974,11 @@ impl ToTokens for StaticRfunc<'_> {
                                 unreachable!()
                             }
                         },
-                        Rfunc::OnceSt(_) => {
+                        Rfunc::OnceSt(__mockall_f) => {
+                            // Panic here if this is the wrong thread.  Once
+                            // taken out of self, the closure would be dropped
+                            // during the panic, and panic again.
+                            __mockall_f.get();
                             if let Rfunc::OnceSt(mut __mockall_f) =
                                 mem::replace(self, Rfunc::Expired) {
                                 ::std::result::Result::Ok((__mockall_f.into_inner())(#(#argnames,)*))
-- 
2.43.0


From b8251f4db5c3119592a3e63e1ad6fc07d4e05807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:01 +0000
Subject: [PATCH 5/7] fix: concurrent calls of one expectation in a Sequence
 could fail in their turn

Two threads calling an expectation with times(2) at once could both count
their call before either verified and satisfied the sequence.  Then the
Sequence was advanced twice, or had already been advanced by the time that the
other thread verified it.
---
 mockall_derive/src/mock_function.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 0429ec3..477d290 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -936,6 +936,8 @@ impl ToTokens for Common<'_> {
         quote!(
             /// Holds the stuff that is independent of the output type
             struct Common #ig #wc {
+                // Serializes the bookkeeping of sequenced calls
+                call_lock: Mutex<()>,
                 matcher: Mutex<Matcher #tg>,
                 seq_handle: Option<::mockall::SeqHandle>,
                 times: ::mockall::Times
@@ -945,6 +947,7 @@ impl ToTokens for Common<'_> {
             {
                 fn default() -> Self {
                     Common {
+                        call_lock: Mutex::new(()),
                         matcher: Mutex::new(Matcher::default()),
                         seq_handle: None,
                         times: ::mockall::Times::default()
@@ -954,6 +957,12 @@ impl ToTokens for Common<'_> {
 
             impl #ig Common #tg #wc {
                 fn call(&self, desc: &str) {
+                    // Count the call and advance the Sequence in one step.
+                    // Otherwise, concurrent calls might see each other's
+                    // progress and fail although it's their turn.
+                    let __mockall_guard = self.seq_handle.is_some()
+                        .then(|| self.call_lock.lock()
+                            .unwrap_or_else(|e| e.into_inner()));
                     self.times.call()
                         .unwrap_or_else(|m| {
                             let desc = std::format!(
-- 
2.43.0


From 78cb2d1d0138888de070312b8c3f3b5be0a6ae73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:07 +0000
Subject: [PATCH 6/7] fix: a caught panic in a static mock function broke its
 Context

The panic poisoned the function's mutex, so that later calls, Context::expect
and dropping the Context panicked with a PoisonError even if all expectations
were met.
---
 mockall_derive/src/mock_function.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 477d290..6a52f40 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -547,16 +547,12 @@ impl MockFunction {
                     use ::mockall::{ViaDebug, ViaNothing};
                     let no_match_msg = #no_match_msg;
                     #deref {
+                        // The mutex is poisoned if an earlier call panicked,
+                        // but that leaves the expectations in order.
                         let __mockall_guard = #outer_mod_path::get_expectations()
-                            .lock().unwrap();
-                        /*
-                         * TODO: catch panics, then gracefully release the mutex
-                         * so it won't be poisoned.  This requires bounding any
-                         * generic parameters with UnwindSafe
-                         */
-                        /* std::panic::catch_unwind(|| */
+                            .lock()
+                            .unwrap_or_else(::std::sync::PoisonError::into_inner);
                         __mockall_guard.#call #tbf(#(#call_exprs,)*)
-                        /*)*/
                     }.expect(&no_match_msg)
                 }
             )
@@ -588,7 +584,7 @@ impl MockFunction {
                 #(#attrs)*
                 {
                     let __mockall_timeses = #inner_mod_ident::get_expectations().lock()
-                        .unwrap()
+                        .unwrap_or_else(::std::sync::PoisonError::into_inner)
                         .checkpoint()
                         .collect::<Vec<_>>();
                 }
@@ -1624,7 +1620,7 @@ impl ToTokens for Context<'_> {
                 #v fn do_checkpoint() {
                     let __mockall_timeses = get_expectations()
                         .lock()
-                        .unwrap()
+                        .unwrap_or_else(::std::sync::PoisonError::into_inner)
                         .checkpoint()
                         .collect::<Vec<_>>();
                 }
@@ -1634,7 +1630,9 @@ impl ToTokens for Context<'_> {
                 #v fn expect #meth_ig ( &self,) -> ExpectationGuard #e_tg
                     #meth_wc
                 {
-                    ExpectationGuard::new(get_expectations().lock().unwrap())
+                    ExpectationGuard::new(get_expectations()
+                        .lock()
+                        .unwrap_or_else(::std::sync::PoisonError::into_inner))
                 }
             }
             impl #ty_ig Default for Context #ty_tg #ty_wc {
-- 
2.43.0


From 8f6008cdc552c26749ed735bfc5feeb23254fa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:36 +0000
Subject: [PATCH 7/7] fix: a caught panic of a return closure or a matcher
 broke its expectation

The panic poisoned the expectation's mutexes, so that later calls panicked with
a PoisonError, and for matchers dropping the mock did too even if the
expectation was met.
---
 mockall_derive/src/mock_function.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 6a52f40..c419c38 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -962,7 +962,8 @@ impl ToTokens for Common<'_> {
                     self.times.call()
                         .unwrap_or_else(|m| {
                             let desc = std::format!(
-                                "{}", self.matcher.lock().unwrap());
+                                "{}", self.matcher.lock()
+                                    .unwrap_or_else(::std::sync::PoisonError::into_inner));
                             panic!("{}: Expectation({}) {}", #funcname, desc,
                                 m);
                         });
@@ -992,7 +993,10 @@ impl ToTokens for Common<'_> {
                 #[allow(clippy::ptr_arg)]
                 #[allow(clippy::ref_option)]
                 fn matches #lg (&self, #( #argnames: &#predty, )*) -> bool {
-                    self.matcher.lock().unwrap().matches(#(#argnames, )*)
+                    // The mutex is poisoned if the matcher panicked earlier
+                    self.matcher.lock()
+                        .unwrap_or_else(::std::sync::PoisonError::into_inner)
+                        .matches(#(#argnames, )*)
                 }
 
                 /// Forbid this expectation from ever being called.
@@ -1047,7 +1051,8 @@ impl ToTokens for Common<'_> {
                 fn drop(&mut self) {
                     if !::std::thread::panicking() {
                         let desc = std::format!(
-                            "{}", self.matcher.lock().unwrap());
+                            "{}", self.matcher.lock()
+                                    .unwrap_or_else(::std::sync::PoisonError::into_inner));
                         match self.times.is_satisfied() {
                             ::mockall::ExpectedCalls::TooFew => {
                                 panic!("{}: Expectation({}) called {} time(s) which is fewer than expected {}",
@@ -2046,7 +2051,8 @@ impl ToTokens for RefExpectation<'_> {
                     self.common.call(&#desc);
                     self.rfunc.call().unwrap_or_else(|m| {
                         let desc = std::format!(
-                            "{}", self.common.matcher.lock().unwrap());
+                            "{}", self.common.matcher.lock()
+                                    .unwrap_or_else(::std::sync::PoisonError::into_inner));
                         panic!("{}: Expectation({}) {}", #funcname, desc,
                             m);
                     })
@@ -2111,7 +2117,8 @@ impl ToTokens for RefMutExpectation<'_> {
                     use ::mockall::{ViaDebug, ViaNothing};
                     self.common.call(&#desc);
                     let desc = std::format!(
-                        "{}", self.common.matcher.lock().unwrap());
+                        "{}", self.common.matcher.lock()
+                                    .unwrap_or_else(::std::sync::PoisonError::into_inner));
                     self.rfunc.call_mut(#(#argnames, )*).unwrap_or_else(|m| {
                             panic!("{}: Expectation({}) {}", #funcname, desc,
                                    m);
@@ -2200,10 +2207,14 @@ impl ToTokens for StaticExpectation<'_> {
                 {
                     use ::mockall::{ViaDebug, ViaNothing};
                     self.common.call(&#desc);
-                    self.rfunc.lock().unwrap().call_mut(#(#argnames, )*)
+                    // The mutex is poisoned if the closure panicked earlier
+                    self.rfunc.lock()
+                        .unwrap_or_else(::std::sync::PoisonError::into_inner)
+                        .call_mut(#(#argnames, )*)
                         .unwrap_or_else(|message| {
                             let desc = std::format!(
-                                "{}", self.common.matcher.lock().unwrap());
+                                "{}", self.common.matcher.lock()
+                                    .unwrap_or_else(::std::sync::PoisonError::into_inner));
                             panic!("{}: Expectation({}) {}", #funcname, desc,
                                    message);
                         })
-- 
2.43.0

