From 735d05469dfcb2cc15b81113b8f6cc86713fc704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 01/14] fix: literal token sequences and homogeneous choices
 resume correctly

`tokens`, `tokens_cmp` (and `string`/`bytes` which build on them) have no partial state but left the
tokens that already matched consumed when a partial input ended in the middle of the literal, so
the resumed parse started in the middle of it.

`choice` over slices and arrays shared one child state between all alternatives, remembered an
alternative which had not consumed anything and kept the index of an abandoned alternative.
---
 src/parser/choice.rs | 29 ++++++++++++++++++++---------
 src/parser/token.rs  | 12 ++++++++++++
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/parser/choice.rs b/src/parser/choice.rs
index ad976a7..bcb4281 100644
--- a/src/parser/choice.rs
+++ b/src/parser/choice.rs
@@ -257,6 +257,8 @@ macro_rules! tuple_choice_parser_inner {
                     _ => false,
                 };
                 if mode.is_first() || empty {
+                    // Forget any alternative which were left unfinished by an abandoned parse
+                    *state = self::$partial_state::Peek;
                     let before_position = input.position();
                     let before = input.checkpoint();
                     do_choice!(input before_position before $partial_state state ( $($id)+ ) )
@@ -271,7 +273,8 @@ macro_rules! tuple_choice_parser_inner {
                                     }
                                     _ => unreachable!()
                                 };
-                                if result.is_ok() {
+                                if let CommitErr(_) = result {
+                                } else {
                                     *state = self::$partial_state::Peek;
                                 }
                                 result
@@ -395,24 +398,32 @@ where
 {
     let mut prev_err = None;
     let mut last_parser_having_non_1_offset = 0;
+    let before_position = input.position();
     let before = input.checkpoint();
 
     let (ref mut index_state, ref mut child_state) = *state;
     if !mode.is_first() && *index_state != 0 {
-        return self_[*index_state - 1]
-            .parse_partial(input, child_state)
-            .map(|x| {
-                *index_state = 0;
-                x
-            });
+        let result = self_[*index_state - 1].parse_partial(input, child_state);
+        if let CommitErr(_) = result {
+        } else {
+            *index_state = 0;
+        }
+        return result;
     }
+    *index_state = 0;
 
     for i in 0..self_.len() {
         ctry!(input.reset(before.clone()).committed());
 
-        match self_[i].parse_mode(mode, input, child_state) {
+        // The state is shared by all the alternatives so each one must start from scratch
+        *child_state = Default::default();
+        match self_[i].parse_mode(crate::parser::FirstMode, input, child_state) {
             committed_err @ CommitErr(_) => {
-                *index_state = i + 1;
+                // If we get `CommitErr` but the input is the same this is a partial parse we
+                // cannot commit to so retry all the parsers on the next call to `parse_partial`
+                if input.position() != before_position {
+                    *index_state = i + 1;
+                }
                 return committed_err;
             }
             PeekErr(err) => {
diff --git a/src/parser/token.rs b/src/parser/token.rs
index fe41421..4388503 100644
--- a/src/parser/token.rs
+++ b/src/parser/token.rs
@@ -239,6 +239,7 @@ where
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<T, Input::Error> {
         let start = input.position();
+        let before = input.checkpoint();
         let mut committed = false;
         for c in self.tokens.clone() {
             match crate::stream::uncons(input) {
@@ -266,6 +267,11 @@ where
                     };
                 }
                 CommitErr(mut error) => {
+                    if input.is_partial() {
+                        // There is no partial state to resume from so the tokens which did match
+                        // must be seen again once more input is available
+                        ctry!(input.reset(before).committed());
+                    }
                     error.set_position(start);
                     return CommitErr(error);
                 }
@@ -343,6 +349,7 @@ where
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<T, Input::Error> {
         let start = input.position();
+        let before = input.checkpoint();
         let mut committed = false;
         for c in self.tokens.clone() {
             match crate::stream::uncons(input) {
@@ -369,6 +376,11 @@ where
                     };
                 }
                 CommitErr(mut error) => {
+                    if input.is_partial() {
+                        // There is no partial state to resume from so the tokens which did match
+                        // must be seen again once more input is available
+                        ctry!(input.reset(before).committed());
+                    }
                     error.set_position(start);
                     return CommitErr(error);
                 }
-- 
2.43.0


From bcf635ee15d7be0f7fd57eac8fd7a64c0c79c781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 02/14] fix: parsers without partial state start over when a
 partial input ends

Function parsers and `parser!` definitions which do not declare a `PartialState` left the input
consumed when they ran out of data in the middle of a parse although nothing was saved to resume from
(for instance `length_prefix` forgot the length it had read).
---
 src/lib.rs             |  7 +++----
 src/parser/function.rs | 33 ++++++++++++++++++++++++++++-----
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 04faeda..9c4c267 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -402,10 +402,9 @@ macro_rules! parser {
 #[macro_export]
 macro_rules! combine_parse_partial {
     ((()) $mode:ident $input:ident $state:ident $parser:block) => {{
-        let _ = $state;
-        let mut state = Default::default();
-        let state = &mut state;
-        $parser.parse_mode($mode, $input, state)
+        // There is no state to resume from so each call must start over from the beginning
+        let _ = ($mode, $state);
+        $parser.parse_lazy($input)
     }};
     (($ignored:ty) $mode:ident $input:ident $state:ident $parser:block) => {
         $parser.parse_mode($mode, $input, $state)
diff --git a/src/parser/function.rs b/src/parser/function.rs
index 4d93b4a..60ce29c 100644
--- a/src/parser/function.rs
+++ b/src/parser/function.rs
@@ -1,12 +1,34 @@
 //! Parsers constructor from regular functions
 
 use crate::{
-    error::{ParseResult, StdParseResult},
+    error::{ParseResult, ResultExt, StdParseResult},
     lib::marker::PhantomData,
     stream::Stream,
     Parser,
 };
 
+/// Function parsers have no partial state so if they run out of input in the middle of a parse they
+/// must be retried from where they started
+#[inline]
+fn parse_restartable<Input, O>(
+    input: &mut Input,
+    f: impl FnOnce(&mut Input) -> StdParseResult<O, Input>,
+) -> ParseResult<O, Input::Error>
+where
+    Input: Stream,
+{
+    if input.is_partial() {
+        let before = input.checkpoint();
+        let result = f(input).into();
+        if let ParseResult::CommitErr(_) = result {
+            ctry!(input.reset(before).committed());
+        }
+        result
+    } else {
+        f(input).into()
+    }
+}
+
 impl<'a, Input: Stream, O> Parser<Input>
     for dyn FnMut(&mut Input) -> StdParseResult<O, Input> + 'a
 {
@@ -15,7 +37,7 @@ impl<'a, Input: Stream, O> Parser<Input>
 
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<O, Input::Error> {
-        self(input).into()
+        parse_restartable(input, |input| self(input))
     }
 }
 
@@ -76,7 +98,7 @@ where
 
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<O, Input::Error> {
-        (self.0)(input).into()
+        parse_restartable(input, |input| (self.0)(input))
     }
 }
 
@@ -89,7 +111,7 @@ where
 
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<O, Input::Error> {
-        self(input).into()
+        parse_restartable(input, |input| self(input))
     }
 }
 
@@ -125,7 +147,8 @@ where
 
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<O, Input::Error> {
-        (self.parser)(self.env.clone(), input).into()
+        let EnvParser { env, parser } = self;
+        parse_restartable(input, |input| parser(env.clone(), input))
     }
 }
 
-- 
2.43.0


From c041f56766274bcf52f8500428986d22f0a80e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 03/14] fix: zero-copy parsers and value dependent sequences
 resume correctly

* a range which does not fit the char boundaries of the input is a mismatch, not a lack of input, so
  it must not commit the parser when the input is partial
* take_until_range failed with a char boundary error instead of asking for more input
* take_fn (take_until_byte*, take_until_bytes) lost part of its resume offset when resumed more than
  once, or resumed inside of a char, and reported an empty error when the input ended
* recognize kept its saved distance after a failed parse
* and_then turned a rejection at the end of a partial input into a committed error
* then, then_partial and then_ref could be resumed with the continuation of an abandoned parse
---
 src/parser/combinator.rs |  7 ++++-
 src/parser/range.rs      | 66 +++++++++++++++++++++++++++++++---------
 src/parser/sequence.rs   |  9 ++++--
 src/stream/mod.rs        |  4 ++-
 4 files changed, 67 insertions(+), 19 deletions(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 97bae9a..3398776 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -382,7 +382,12 @@ where
                 Err(err) => {
                     let err = <Input as StreamOnce>::Error::from_error(position, err.into());
 
-                    if input.is_partial() && input_at_eof(input) {
+                    // Only a missing end of the input can be remedied by more input, any other
+                    // rejection is final and must leave the alternatives to this parser open
+                    if err.is_unexpected_end_of_input()
+                        && input.is_partial()
+                        && input_at_eof(input)
+                    {
                         ctry!(input.reset(checkpoint).committed());
                         CommitErr(err)
                     } else {
diff --git a/src/parser/range.rs b/src/parser/range.rs
index 46353eb..3fa0858 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -114,6 +114,7 @@ where
     let before = input.checkpoint();
 
     if !input.is_partial() {
+        *distance_state = 0;
         first(input, state)
     } else if mode.is_first() || *distance_state == 0 {
         let result = first(input, state);
@@ -178,7 +179,11 @@ where
 
         let value = match self.0.parse_mode(mode, input, child_state) {
             CommitOk(x) | PeekOk(x) => x,
-            PeekErr(err) => return PeekErr(err),
+            PeekErr(err) => {
+                *distance_state = 0;
+                ctry!(input.reset(before).committed());
+                return PeekErr(err);
+            }
             CommitErr(err) => {
                 *distance_state = input.distance(&before);
                 ctry!(input.reset(before).committed());
@@ -427,14 +432,23 @@ where
     type Output = Input::Range;
     type PartialState = usize;
 
+    parse_mode!(Input);
     #[inline]
-    fn parse_partial(
+    fn parse_mode_impl<M>(
         &mut self,
+        mode: M,
         input: &mut Input,
         to_consume: &mut Self::PartialState,
-    ) -> ParseResult<Self::Output, <Input as StreamOnce>::Error> {
+    ) -> ParseResult<Self::Output, <Input as StreamOnce>::Error>
+    where
+        M: ParseMode,
+    {
         use crate::stream::Range;
 
+        if mode.is_first() {
+            *to_consume = 0;
+        }
+
         let len = self.0.len();
         let before = input.checkpoint();
         let mut first_stream_error = None;
@@ -480,7 +494,11 @@ where
                     // fail as only one `:` is present at this parse attempt. But when we later resume
                     // with more input we must start parsing again at the first time we errored so we
                     // can see the entire `::`
-                    if first_stream_error.is_none() {
+                    //
+                    // (Not being able to split the input there, as opposed to being at its end, only
+                    // tells that the range does not start here)
+                    let is_eoi = first_error.is_unexpected_end_of_input();
+                    if first_stream_error.is_none() && is_eoi {
                         first_stream_error = Some((first_error, input.distance(&before)));
                     }
 
@@ -489,14 +507,21 @@ where
 
                     // See if we can advance anyway
                     if input.uncons().is_err() {
-                        let (first_error, first_error_distance) = first_stream_error.unwrap();
-
                         // Reset the stream
                         ctry!(input.reset(before).committed());
-                        *to_consume = first_error_distance;
 
                         // Return the original error if uncons failed
-                        return wrap_stream_error(input, first_error);
+                        let (first_error, first_error_distance) = match first_stream_error {
+                            Some(x) => x,
+                            None => (StreamErrorFor::<Input>::end_of_input(), 0),
+                        };
+                        let result = wrap_stream_error(input, first_error);
+                        *to_consume = match result {
+                            CommitErr(_) => first_error_distance,
+                            // There is nothing to resume
+                            _ => 0,
+                        };
+                        return result;
                     }
                 }
             };
@@ -578,8 +603,8 @@ where
 
         if mode.is_first() {
             *offset = 0;
-        } else {
-            let _ = input.uncons_range(*offset);
+        } else if *offset != 0 {
+            ctry!(uncons_range(input, *offset));
         }
 
         match (self.searcher)(input.range()).into() {
@@ -592,15 +617,28 @@ where
                 result
             }
             TakeRange::NotFound(next_offset) => {
-                *offset = next_offset;
-
                 let range = input.range();
-                let _ = input.uncons_range(range.len());
+                let is_empty = *offset == 0 && range.is_empty();
+                let len = range.len();
+
+                // `next_offset` counts from where this search started. If the input can't be split
+                // there (`searcher` may work on the bytes of a string) skip slightly less
+                let search_start = input.checkpoint();
+                let mut next_offset = crate::lib::cmp::min(next_offset, len);
+                while next_offset != 0 && input.uncons_range(next_offset).is_err() {
+                    ctry!(input.reset(search_start.clone()).committed());
+                    next_offset -= 1;
+                }
+                ctry!(input.reset(search_start).committed());
+                *offset += next_offset;
+
+                let _ = input.uncons_range(len);
                 let position = input.position();
                 ctry!(input.reset(checkpoint).committed());
 
                 let err = Input::Error::from_error(position, StreamError::end_of_input());
-                if !input.is_partial() && range.is_empty() {
+                if !input.is_partial() && is_empty {
+                    *offset = 0;
                     PeekErr(err.into())
                 } else {
                     CommitErr(err)
diff --git a/src/parser/sequence.rs b/src/parser/sequence.rs
index 8e0ecc9..20af595 100644
--- a/src/parser/sequence.rs
+++ b/src/parser/sequence.rs
@@ -649,7 +649,8 @@ where
         let (ref mut p_state, ref mut n_parser_cache, ref mut n_state) = *state;
 
         if mode.is_first() || n_parser_cache.is_none() {
-            debug_assert!(n_parser_cache.is_none());
+            // Forget any continuation which were left unfinished by an abandoned parse
+            *n_parser_cache = None;
 
             let (value, committed) = match self.0.parse_mode(mode, input, p_state) {
                 PeekOk(value) => (value, false),
@@ -739,7 +740,8 @@ where
         let (ref mut p_state, ref mut n_parser_cache, ref mut n_state) = *state;
 
         if mode.is_first() || n_parser_cache.is_none() {
-            debug_assert!(n_parser_cache.is_none());
+            // Forget any continuation which were left unfinished by an abandoned parse
+            *n_parser_cache = None;
 
             match self.0.parse_mode(mode, input, p_state) {
                 PeekOk(value) => {
@@ -840,7 +842,8 @@ where
         let (ref mut p_state, ref mut n_parser_cache, ref mut n_state) = *state;
 
         if mode.is_first() || n_parser_cache.is_none() {
-            debug_assert!(n_parser_cache.is_none());
+            // Forget any continuation which were left unfinished by an abandoned parse
+            *n_parser_cache = None;
 
             let (value, committed) = match self.0.parse_mode(mode, input, p_state) {
                 PeekOk(value) => (value, false),
diff --git a/src/stream/mod.rs b/src/stream/mod.rs
index a395612..b55817d 100644
--- a/src/stream/mod.rs
+++ b/src/stream/mod.rs
@@ -250,8 +250,10 @@ pub fn wrap_stream_error<T, Input>(
 where
     Input: ?Sized + StreamOnce + Positioned,
 {
+    // More input can only change the outcome if it was the end of the input that caused the error
+    let is_eoi = err.is_unexpected_end_of_input();
     let err = Input::Error::from_error(input.position(), err);
-    if input.is_partial() {
+    if is_eoi && input.is_partial() {
         CommitErr(err)
     } else {
         PeekErr(err.into())
-- 
2.43.0


From cef75db5f6a3aeab2cf5acd2f0f76f15050a7264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 04/14] fix: tuples keep their commit status and no stale
 values when resumed

---
 src/parser/sequence.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/parser/sequence.rs b/src/parser/sequence.rs
index 20af595..3752176 100644
--- a/src/parser/sequence.rs
+++ b/src/parser/sequence.rs
@@ -94,6 +94,8 @@ macro_rules! tuple_parser {
             )*
             #[allow(dead_code)]
             offset: u8,
+            #[allow(dead_code)]
+            first_empty_parser: u8,
             _marker: PhantomData <( $h, $( $id),* )>,
         }
 
@@ -164,7 +166,21 @@ macro_rules! tuple_parser {
                 MODE: ParseMode,
             {
                 let (ref mut $h, $(ref mut $id),*) = *self;
-                let mut first_empty_parser = 0;
+
+                #[allow(unused_macros)]
+                macro_rules! forget_values {
+                    () => {
+                        state.$h.value = None;
+                        $( state.$id.value = None; )*
+                        state.first_empty_parser = 0;
+                    }
+                }
+
+                if mode.is_first() {
+                    // Forget any values which were left behind by an abandoned parse
+                    forget_values!();
+                }
+                let mut first_empty_parser = usize::from(state.first_empty_parser);
                 #[allow(unused_mut)]
                 let mut current_parser = 0;
 
@@ -181,6 +197,7 @@ macro_rules! tuple_parser {
                     let temp = match $h.parse_mode(mode, input, &mut state.$h.state) {
                         CommitOk(x) => {
                             first_empty_parser = current_parser + 1;
+                            state.first_empty_parser = first_empty_parser as u8;
                             x
                         }
                         PeekErr(err) => return PeekErr(err),
@@ -199,15 +216,20 @@ macro_rules! tuple_parser {
                 }
 
                 $(
+                    current_parser += 1;
                     if mode.is_first() || state.$id.value.is_none() {
-                        current_parser += 1;
                         let before = input.checkpoint();
                         let temp = match $id.parse_mode(mode, input, &mut state.$id.state) {
                             CommitOk(x) => {
                                 first_empty_parser = current_parser + 1;
+                                state.first_empty_parser = first_empty_parser as u8;
                                 x
                             }
                             PeekErr(err) => {
+                                if first_empty_parser == 0 {
+                                    // Nothing to resume
+                                    forget_values!();
+                                }
                                 if let Err(err) = input.reset(before) {
                                     return if first_empty_parser != 0 {
                                         CommitErr(err.into())
@@ -232,6 +254,7 @@ macro_rules! tuple_parser {
                     }
                 )*
 
+                state.first_empty_parser = 0;
                 // SAFETY: requires both $h and $id to be set, see previous SAFETY comments
                 let value = unsafe { (state.$h.unwrap_value(), $(state.$id.unwrap_value()),*) };
                 if first_empty_parser != 0 {
-- 
2.43.0


From 9622d2ef33518bf09a7c0640b02324bf0198ed80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 05/14] fix: repetitions keep their elements, commit status and
 progress when resumed

---
 src/parser/function.rs |   5 +-
 src/parser/repeat.rs   | 292 ++++++++++++++++++++++++++++++++---------
 2 files changed, 231 insertions(+), 66 deletions(-)

diff --git a/src/parser/function.rs b/src/parser/function.rs
index 60ce29c..0ade84d 100644
--- a/src/parser/function.rs
+++ b/src/parser/function.rs
@@ -10,12 +10,13 @@ use crate::{
 /// Function parsers have no partial state so if they run out of input in the middle of a parse they
 /// must be retried from where they started
 #[inline]
-fn parse_restartable<Input, O>(
+pub(crate) fn parse_restartable<Input, O, R>(
     input: &mut Input,
-    f: impl FnOnce(&mut Input) -> StdParseResult<O, Input>,
+    f: impl FnOnce(&mut Input) -> R,
 ) -> ParseResult<O, Input::Error>
 where
     Input: Stream,
+    R: Into<ParseResult<O, Input::Error>>,
 {
     if input.is_partial() {
         let before = input.checkpoint();
diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 27543c3..054abba 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -10,7 +10,7 @@ use crate::{
     parser::{
         choice::{optional, Optional, Or},
         combinator::{ignore, Ignore},
-        function::{parser, FnParser},
+        function::{parse_restartable, parser, FnParser},
         sequence::With,
         token::{value, Value},
         FirstMode, ParseMode,
@@ -22,6 +22,8 @@ use crate::{
 parser! {
 pub struct Count;
 
+type PartialState = <CountMinMax<F, P> as Parser<Input>>::PartialState;
+
 /// Parses `parser` from zero up to `count` times.
 ///
 /// ```
@@ -123,7 +125,7 @@ where
     F: Extend<P::Output> + Default,
 {
     type Output = F;
-    type PartialState = (usize, F, P::PartialState);
+    type PartialState = (usize, bool, F, P::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -136,9 +138,17 @@ where
     where
         M: ParseMode,
     {
-        let (count, elements, child_state) = state;
+        let (count, committed, elements, child_state) = state;
+
+        if mode.is_first() {
+            // Forget any elements which were left behind by an abandoned parse
+            *count = 0;
+            *committed = false;
+            *elements = F::default();
+        }
 
         let mut iter = self.parser.by_ref().partial_iter(mode, input, child_state);
+        iter.committed = *committed;
         let remaining_min = self.min.saturating_sub(*count);
         let remaining_max = self.max - *count;
         elements.extend(suggest_size_hint(
@@ -150,10 +160,19 @@ where
                 "expected {} more elements",
                 self.min - *count
             ));
-            iter.fail(err)
+            *committed = iter.committed;
+            let result = iter.fail(err);
+            if let PeekErr(_) = result {
+                // Nothing to resume
+                *count = 0;
+                *elements = F::default();
+            }
+            result
         } else {
+            *committed = iter.committed;
             iter.into_result_fast(elements).map(|x| {
                 *count = 0;
+                *committed = false;
                 x
             })
         }
@@ -384,7 +403,7 @@ where
     F: Extend<P::Output> + Default,
 {
     type Output = F;
-    type PartialState = (F, P::PartialState);
+    type PartialState = (F, bool, P::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -398,11 +417,23 @@ where
         M: ParseMode,
     {
         // TODO
-        let (ref mut elements, ref mut child_state) = *state;
+        let (ref mut elements, ref mut committed, ref mut child_state) = *state;
+
+        if mode.is_first() {
+            // Forget any elements which were left behind by an abandoned parse
+            *elements = F::default();
+            *committed = false;
+        }
 
         let mut iter = (&mut self.0).partial_iter(mode, input, child_state);
+        iter.committed = *committed;
         elements.extend(iter.by_ref());
-        iter.into_result_fast(elements)
+
+        *committed = iter.committed;
+        iter.into_result_fast(elements).map(|x| {
+            *committed = false;
+            x
+        })
     }
 
     fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
@@ -473,7 +504,9 @@ where
             *state;
 
         if mode.is_first() || !*parsed_one {
-            debug_assert!(!*parsed_one);
+            // Forget any elements which were left behind by an abandoned parse
+            *parsed_one = false;
+            *elements = F::default();
 
             let (first, committed) = ctry!(self.0.parse_mode(mode, input, child_state));
             elements.extend(Some(first));
@@ -493,6 +526,7 @@ where
         };
         elements.extend(iter.by_ref());
 
+        *committed_state = iter.committed;
         iter.into_result_fast(elements).map(|x| {
             *parsed_one = false;
             x
@@ -708,7 +742,7 @@ where
     #[inline]
     fn parse_mode_impl<M>(
         &mut self,
-        mode: M,
+        mut mode: M,
         input: &mut Input,
         state: &mut Self::PartialState,
     ) -> ParseResult<Self::Output, Input::Error>
@@ -717,6 +751,12 @@ where
     {
         let (ref mut parsed_one, ref mut elements, ref mut child_state) = *state;
 
+        if mode.is_first() {
+            // Forget any elements which were left behind by an abandoned parse
+            *parsed_one = None;
+            *elements = F::default();
+        }
+
         let rest = match *parsed_one {
             Some(rest) => rest,
             None => {
@@ -724,7 +764,9 @@ where
                     ctry!(self
                         .parser
                         .parse_mode(mode, input, &mut child_state.B.state));
+                *parsed_one = Some(rest);
                 elements.extend(Some(first));
+                mode.set_first();
                 rest
             }
         };
@@ -735,6 +777,10 @@ where
 
             elements.extend(iter.by_ref());
 
+            if iter.committed {
+                *parsed_one = Some(Commit::Commit(()));
+            }
+
             iter.into_result_fast(elements).map(|x| {
                 *parsed_one = None;
                 x
@@ -890,7 +936,7 @@ where
     #[inline]
     fn parse_mode_impl<M>(
         &mut self,
-        mode: M,
+        mut mode: M,
         input: &mut Input,
         state: &mut Self::PartialState,
     ) -> ParseResult<Self::Output, Input::Error>
@@ -899,6 +945,12 @@ where
     {
         let (ref mut parsed_one, ref mut elements, ref mut child_state) = *state;
 
+        if mode.is_first() {
+            // Forget any elements which were left behind by an abandoned parse
+            *parsed_one = None;
+            *elements = F::default();
+        }
+
         let rest = match *parsed_one {
             Some(rest) => rest,
             None => {
@@ -908,6 +960,7 @@ where
                         .parse_mode(mode, input, &mut child_state.B.state));
                 *parsed_one = Some(rest);
                 elements.extend(Some(first));
+                mode.set_first();
                 rest
             }
         };
@@ -1006,9 +1059,9 @@ where
         let (ref mut l_state, ref mut child_state) = *state;
 
         let (mut l, mut committed) = match l_state.take() {
-            Some(x) => x,
-            None => {
-                let x = ctry!(self.0.parse_partial(input, &mut child_state.B.state));
+            Some(x) if !mode.is_first() => x,
+            _ => {
+                let x = ctry!(self.0.parse_mode(mode, input, &mut child_state.B.state));
                 mode.set_first();
                 x
             }
@@ -1080,6 +1133,21 @@ where
     type PartialState = ();
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<P::Output, Input::Error> {
+        parse_restartable(input, |input| self.parse_chain(input))
+    }
+    fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
+        self.0.add_error(errors)
+    }
+}
+
+impl<P, Op> Chainr1<P, Op> {
+    fn parse_chain<Input>(&mut self, input: &mut Input) -> ParseResult<P::Output, Input::Error>
+    where
+        Input: Stream,
+        P: Parser<Input>,
+        Op: Parser<Input>,
+        Op::Output: FnOnce(P::Output, P::Output) -> P::Output,
+    {
         // FIXME FastResult
         let (mut l, mut committed) = ctry!(self.0.parse_lazy(input));
         loop {
@@ -1096,7 +1164,7 @@ where
                 }
             };
             let before = input.checkpoint();
-            match self.parse_lazy(input).into() {
+            match self.parse_chain(input).into() {
                 Ok((r, rest)) => {
                     l = op(l, r);
                     committed = committed.merge(rest);
@@ -1110,9 +1178,6 @@ where
         }
         Ok((l, committed)).into()
     }
-    fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-        self.0.add_error(errors)
-    }
 }
 
 /// Parses `p` one or more times separated by `op`. The value returned is the one produced by the
@@ -1139,6 +1204,55 @@ where
     Chainr1(parser, op)
 }
 
+/// Checks if `end` parses at the current position without consuming any input.
+///
+/// If `end` runs out of input, `offset` is set to the number of tokens that `end` had consumed (and
+/// which `state` therefore accounts for) so that these are skipped when `end` is resumed.
+fn parse_end<Input, P, M>(
+    end: &mut P,
+    mode: M,
+    input: &mut Input,
+    state: &mut P::PartialState,
+    offset: &mut usize,
+) -> ParseResult<(), Input::Error>
+where
+    Input: Stream,
+    P: Parser<Input>,
+    M: ParseMode,
+{
+    let before = input.checkpoint();
+
+    let skip = mem::take(offset);
+    if !mode.is_first() {
+        for _ in 0..skip {
+            ctry!(uncons(input));
+        }
+    }
+
+    let result = end.parse_mode(mode, input, state);
+
+    if input.is_partial() {
+        if let CommitErr(_) = result {
+            let end_position = input.position();
+            ctry!(input.reset(before.clone()).committed());
+            while input.position() != end_position {
+                if input.uncons().is_err() {
+                    *offset = 0;
+                    break;
+                }
+                *offset += 1;
+            }
+            if *offset == 0 {
+                // Start over as the end will be tried from the same position as this time
+                *state = Default::default();
+            }
+        }
+    }
+
+    ctry!(input.reset(before).committed());
+    result.map(|_| ())
+}
+
 #[derive(Copy, Clone)]
 pub struct TakeUntil<F, P> {
     end: P,
@@ -1151,41 +1265,52 @@ where
     P: Parser<Input>,
 {
     type Output = F;
-    type PartialState = (F, P::PartialState);
+    type PartialState = (F, bool, usize, P::PartialState);
 
     parse_mode!(Input);
     #[inline]
     fn parse_mode_impl<M>(
         &mut self,
-        mode: M,
+        mut mode: M,
         input: &mut Input,
         state: &mut Self::PartialState,
     ) -> ParseResult<Self::Output, Input::Error>
     where
         M: ParseMode,
     {
-        let (ref mut output, ref mut end_state) = *state;
+        let (ref mut output, ref mut committed, ref mut end_offset, ref mut end_state) = *state;
+
+        if mode.is_first() {
+            // Forget any output which was left behind by an abandoned parse
+            *output = F::default();
+            *committed = false;
+        }
 
-        let mut committed = Commit::Peek(());
         loop {
-            let before = input.checkpoint();
-            match self.end.parse_mode(mode, input, end_state).into() {
+            match parse_end(&mut self.end, mode, input, end_state, end_offset).into() {
                 Ok((_, rest)) => {
-                    ctry!(input.reset(before).committed());
-                    return match committed.merge(rest) {
-                        Commit::Commit(()) => CommitOk(mem::take(output)),
-                        Commit::Peek(()) => PeekOk(mem::take(output)),
+                    let output = mem::take(output);
+                    return if mem::take(committed) || !rest.is_peek() {
+                        CommitOk(output)
+                    } else {
+                        PeekOk(output)
                     };
                 }
                 Err(Commit::Peek(_)) => {
-                    ctry!(input.reset(before).committed());
-                    output.extend(Some(ctry!(uncons(input)).0));
-                    committed = Commit::Commit(());
-                }
-                Err(Commit::Commit(e)) => {
-                    ctry!(input.reset(before).committed());
-                    return CommitErr(e.error);
+                    mode.set_first();
+                    match uncons(input) {
+                        CommitOk(token) | PeekOk(token) => output.extend(Some(token)),
+                        PeekErr(err) => {
+                            // Nothing to resume
+                            *output = F::default();
+                            *committed = false;
+                            return PeekErr(err);
+                        }
+                        CommitErr(err) => return CommitErr(err),
+                    }
+                    *committed = true;
                 }
+                Err(Commit::Commit(e)) => return CommitErr(e.error),
             };
         }
     }
@@ -1275,7 +1400,7 @@ where
     E: Parser<Input>,
 {
     type Output = F;
-    type PartialState = (F, bool, P::PartialState, E::PartialState);
+    type PartialState = (F, bool, bool, P::PartialState, usize, E::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -1288,34 +1413,49 @@ where
     where
         M: ParseMode,
     {
-        let (output, is_parse, parse_state, end_state) = state;
+        let (output, committed, is_parse, parse_state, end_offset, end_state) = state;
+
+        if mode.is_first() {
+            // Forget any output which was left behind by an abandoned parse
+            *output = F::default();
+            *committed = false;
+            *is_parse = false;
+        }
 
-        let mut committed = Commit::Peek(());
         loop {
             if *is_parse {
-                let (token, c) = ctry!(self.parser.parse_mode(mode, input, parse_state));
-                output.extend(Some(token));
-                committed = committed.merge(c);
+                match self.parser.parse_mode(mode, input, parse_state) {
+                    CommitOk(value) => {
+                        output.extend(Some(value));
+                        *committed = true;
+                    }
+                    PeekOk(value) => output.extend(Some(value)),
+                    PeekErr(err) => {
+                        // Nothing to resume
+                        *output = F::default();
+                        *committed = false;
+                        *is_parse = false;
+                        return PeekErr(err);
+                    }
+                    CommitErr(err) => return CommitErr(err),
+                }
+                mode.set_first();
                 *is_parse = false;
             } else {
-                let before = input.checkpoint();
-                match self.end.parse_mode(mode, input, end_state).into() {
+                match parse_end(&mut self.end, mode, input, end_state, end_offset).into() {
                     Ok((_, rest)) => {
-                        ctry!(input.reset(before).committed());
-                        return match committed.merge(rest) {
-                            Commit::Commit(()) => CommitOk(mem::take(output)),
-                            Commit::Peek(()) => PeekOk(mem::take(output)),
+                        let output = mem::take(output);
+                        return if mem::take(committed) || !rest.is_peek() {
+                            CommitOk(output)
+                        } else {
+                            PeekOk(output)
                         };
                     }
                     Err(Commit::Peek(_)) => {
-                        ctry!(input.reset(before).committed());
                         mode.set_first();
                         *is_parse = true;
                     }
-                    Err(Commit::Commit(e)) => {
-                        ctry!(input.reset(before).committed());
-                        return CommitErr(e.error);
-                    }
+                    Err(Commit::Commit(e)) => return CommitErr(e.error),
                 }
             }
         }
@@ -1392,15 +1532,38 @@ where
     type PartialState = EscapedState<P::PartialState, Q::PartialState>;
 
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<Self::Output, Input::Error> {
+        parse_restartable(input, |input| self.parse_escaped(input))
+    }
+
+    fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
+        use crate::error;
+
+        self.parser.add_error(errors);
+
+        errors.error.add_expected(error::Token(self.escape.clone()));
+    }
+}
+
+impl<P, Q, T> Escaped<P, Q, T>
+where
+    T: PartialEq,
+{
+    fn parse_escaped<Input>(&mut self, input: &mut Input) -> ParseResult<(), Input::Error>
+    where
+        Input: Stream<Token = T>,
+        P: Parser<Input>,
+        Q: Parser<Input>,
+    {
         let mut committed = Commit::Peek(());
         loop {
+            let before = input.checkpoint();
             match self.parser.parse_lazy(input) {
                 PeekOk(_) => {}
                 CommitOk(_) => {
                     committed = Commit::Commit(());
                 }
                 PeekErr(_) => {
-                    let checkpoint = input.checkpoint();
+                    ctry!(input.reset(before.clone()).committed());
                     match uncons(input) {
                         CommitOk(ref c) | PeekOk(ref c) if *c == self.escape => {
                             match self.escape_parser.parse_committed_mode(
@@ -1408,8 +1571,7 @@ where
                                 input,
                                 &mut Default::default(),
                             ) {
-                                PeekOk(_) => {}
-                                CommitOk(_) => {
+                                PeekOk(_) | CommitOk(_) => {
                                     committed = Commit::Commit(());
                                 }
                                 CommitErr(err) => return CommitErr(err),
@@ -1422,7 +1584,7 @@ where
                             return CommitErr(err);
                         }
                         _ => {
-                            ctry!(input.reset(checkpoint).committed());
+                            ctry!(input.reset(before).committed());
                             return if committed.is_peek() {
                                 PeekOk(())
                             } else {
@@ -1435,14 +1597,6 @@ where
             }
         }
     }
-
-    fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-        use crate::error;
-
-        self.parser.add_error(errors);
-
-        errors.error.add_expected(error::Token(self.escape.clone()));
-    }
 }
 
 /// Parses an escaped string by first applying `parser` which accept the normal characters which do
@@ -1523,6 +1677,10 @@ where
         let (iter, next_item) = match opt_iter {
             Some(iter) if !mode.is_first() => iter,
             _ => {
+                // Forget any items which were left behind by an abandoned parse
+                mode.set_first();
+                *committed = false;
+                *buf = F::default();
                 *opt_iter = Some((self.iterable.clone().into_iter(), None));
                 opt_iter.as_mut().unwrap()
             }
@@ -1578,7 +1736,13 @@ where
         })();
 
         if let Err((item, err)) = result {
-            *next_item = Some(item);
+            if let PeekErr(_) = err {
+                // Nothing to resume
+                *opt_iter = None;
+                *buf = F::default();
+            } else {
+                *next_item = Some(item);
+            }
             return err;
         }
 
-- 
2.43.0


From fe1607f7d7edb816b0be96cfcf8a9d45fd5ce179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 06/14] fix: eof and not_followed_by wait for the end of a
 partial input

---
 src/parser/combinator.rs | 13 ++++++++++++-
 src/parser/token.rs      | 12 +++++++++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 3398776..2bd9080 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -44,7 +44,16 @@ where
         ctry!(input.reset(checkpoint).committed());
         match result {
             CommitOk(_) | PeekOk(_) => PeekErr(Input::Error::empty(input.position()).into()),
-            CommitErr(_) | PeekErr(_) => PeekOk(()),
+            CommitErr(err) => {
+                // Since the input were reset there is nothing to resume
+                *state = Default::default();
+                if input.is_partial() && err.is_unexpected_end_of_input() {
+                    CommitErr(err)
+                } else {
+                    PeekOk(())
+                }
+            }
+            PeekErr(_) => PeekOk(()),
         }
     }
 
@@ -131,6 +140,8 @@ where
                 if input.is_partial() && err.is_unexpected_end_of_input() {
                     CommitErr(err)
                 } else {
+                    // Nothing to resume
+                    *state = Default::default();
                     PeekErr(err.into())
                 }
             }
diff --git a/src/parser/token.rs b/src/parser/token.rs
index 4388503..deb80bd 100644
--- a/src/parser/token.rs
+++ b/src/parser/token.rs
@@ -672,7 +672,17 @@ where
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<(), Input::Error> {
         let before = input.checkpoint();
         match input.uncons() {
-            Err(ref err) if err.is_unexpected_end_of_input() => PeekOk(()),
+            Err(ref err) if err.is_unexpected_end_of_input() => {
+                if input.is_partial() {
+                    // More input may still arrive so it is too early to tell
+                    CommitErr(Input::Error::from_error(
+                        input.position(),
+                        StreamError::end_of_input(),
+                    ))
+                } else {
+                    PeekOk(())
+                }
+            }
             _ => {
                 ctry!(input.reset(before).committed());
                 PeekErr(<Input as StreamOnce>::Error::empty(input.position()).into())
-- 
2.43.0


From 1f86f193d58e8733f1768f77d4588cec50730bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 07/14] fix: a rejection at the end of a partial input is not a
 missing end of input

---
 src/parser/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 24e880b..f7da22a 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -150,7 +150,8 @@ pub trait Parser<Input: Stream> {
             if let Ok(t) = input.uncons() {
                 ctry!(input.reset(before).committed());
                 error.error.add_unexpected(Token(t));
-            } else {
+            } else if !input.is_partial() {
+                // (If more input may arrive its end had no part in the rejection)
                 error.error.add(StreamErrorFor::<Input>::end_of_input());
             }
             self.add_error(error);
@@ -219,7 +220,8 @@ pub trait Parser<Input: Stream> {
             if let Ok(t) = input.uncons() {
                 ctry!(input.reset(before).committed());
                 error.error.add_unexpected(Token(t));
-            } else {
+            } else if !input.is_partial() {
+                // (If more input may arrive its end had no part in the rejection)
                 error.error.add(StreamErrorFor::<Input>::end_of_input());
             }
             self.add_error(error);
@@ -1138,7 +1140,8 @@ pub trait ParseMode: Copy {
             if let Ok(t) = input.uncons() {
                 ctry!(input.reset(before).committed());
                 error.error.add_unexpected(Token(t));
-            } else {
+            } else if !input.is_partial() {
+                // (If more input may arrive its end had no part in the rejection)
                 error.error.add(StreamErrorFor::<Input>::end_of_input());
             }
             parser.add_error(error);
-- 
2.43.0


From eca3450b578c95f3b0081a5f6f58741027c89367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:20 +0000
Subject: [PATCH 08/14] fix: the blocking decode! macro works with a bufferless
 decoder

__before_parse required CombineSyncRead for a reference to the reader, which
Bufferless only implements for the BufReader itself, so a Decoder made with
new_bufferless could not be used with decode! at all.
---
 src/stream/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stream/decoder.rs b/src/stream/decoder.rs
index ad034f8..07ca2a4 100644
--- a/src/stream/decoder.rs
+++ b/src/stream/decoder.rs
@@ -139,12 +139,12 @@ where
     C: ,
 {
     #[doc(hidden)]
-    pub fn __before_parse<R>(&mut self, mut reader: R) -> io::Result<()>
+    pub fn __before_parse<R>(&mut self, reader: &mut R) -> io::Result<()>
     where
         R: Read,
         C: crate::stream::buf_reader::CombineSyncRead<R>,
     {
-        if self.buffer.extend_buf_sync(&mut reader)? == 0 {
+        if self.buffer.extend_buf_sync(reader)? == 0 {
             self.end_of_input = true;
         }
 
-- 
2.43.0


From f7e38fb60ad52f4d034ee05bd3276357ac5a2fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 09/14] fix: decode_futures_03! works with a bufferless decoder

Bufferless reads through the BufReader's inner reader, but __before_parse_async
also required the BufReader itself to implement futures' AsyncRead, which it
does not, so the two could not be used together.
---
 src/stream/decoder.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/stream/decoder.rs b/src/stream/decoder.rs
index 07ca2a4..c073985 100644
--- a/src/stream/decoder.rs
+++ b/src/stream/decoder.rs
@@ -214,7 +214,6 @@ impl<S, P, C> Decoder<S, P, C> {
     #[doc(hidden)]
     pub async fn __before_parse_async<R>(&mut self, reader: Pin<&mut R>) -> io::Result<()>
     where
-        R: futures_io_03::AsyncRead,
         C: crate::stream::buf_reader::CombineAsyncRead<R>,
     {
         let copied = self.buffer.extend_buf(reader).await?;
-- 
2.43.0


From 0fed5a0c076218d708f77a0687224f23fdf37849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 10/14] fix: decode_futures_03! without a stream argument
 compiles

---
 src/stream/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/stream/mod.rs b/src/stream/mod.rs
index b55817d..a092389 100644
--- a/src/stream/mod.rs
+++ b/src/stream/mod.rs
@@ -1506,11 +1506,10 @@ macro_rules! decode {
 #[cfg_attr(docsrs, doc(cfg(feature = "futures-io-03")))]
 #[macro_export]
 macro_rules! decode_futures_03 {
-    ($decoder: expr, $read: expr, $parser: expr) => {
-        $crate::decode_futures_03!($decoder, $read, $parser, |x| x $(,)?)
+    ($decoder: expr, $read: expr, $parser: expr $(,)?) => {
+        $crate::decode_futures_03!($decoder, $read, $parser, |input, _position| input)
     };
 
-
     ($decoder: expr, $read: expr, $parser: expr, $input_stream: expr $(,)?) => {
         $crate::decode_futures_03!($decoder, $read, $parser, $input_stream, |x| x)
     };
-- 
2.43.0


From 08cf90f468d502cf381415aa6636e7eb07542d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:47 +0000
Subject: [PATCH 11/14] fix: an expected message does not hide the end of input
 or an I/O error

---
 src/error.rs       |  6 ++++--
 src/stream/read.rs | 12 +++++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 5670b25..bece7b4 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -685,7 +685,8 @@ where
         F: FnOnce(&mut Tracked<Self>),
     {
         f(self_);
-        self_.error = info;
+        // What was expected does not change that the input ended
+        <Self as ParseError<Item, Range, Position>>::add(&mut self_.error, info);
     }
 
     fn is_unexpected_end_of_input(&self) -> bool {
@@ -873,7 +874,8 @@ where
         F: FnOnce(&mut Tracked<Self>),
     {
         f(self_);
-        self_.error = info;
+        // What was expected does not change that the input ended
+        <Self as ParseError<Item, Range, Position>>::add(&mut self_.error, info);
     }
 
     fn is_unexpected_end_of_input(&self) -> bool {
diff --git a/src/stream/read.rs b/src/stream/read.rs
index 6fa13b0..df8dc99 100644
--- a/src/stream/read.rs
+++ b/src/stream/read.rs
@@ -126,10 +126,11 @@ where
 
     #[inline]
     fn add(&mut self, err: Self::StreamError) {
-        *self = match (&*self, err) {
-            (Error::EndOfInput, _) => Error::EndOfInput,
-            (_, err) => err,
-        };
+        match self {
+            // Neither may be hidden by what else could have been parsed
+            Error::EndOfInput | Error::Io(_) => (),
+            Error::Unexpected => *self = err,
+        }
     }
 
     #[inline]
@@ -138,7 +139,8 @@ where
         F: FnOnce(&mut Tracked<Self>),
     {
         f(self_);
-        self_.error = info;
+        // What was expected does not change that the input ended
+        <Self as ParseError<Item, Range, Position>>::add(&mut self_.error, info);
     }
 
     fn is_unexpected_end_of_input(&self) -> bool {
-- 
2.43.0


From f4c5403a43ef0e70a74e1af5a03db4c50baebce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:24 +0000
Subject: [PATCH 12/14] fix: a type-erased saved state can be used by another
 parser after a message

---
 src/parser/combinator.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 2bd9080..056b087 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -812,6 +812,9 @@ where
                 // FIXME Make None unreachable for LLVM
                 state.0 = Some(Box::new(new_child_state.unwrap()));
             }
+        } else if result.is_ok() {
+            // There is nothing left to resume and the next parser may be a different one
+            state.0 = None;
         }
 
         result
@@ -915,6 +918,9 @@ where
                 // FIXME Make None unreachable for LLVM
                 state.0 = Some(Box::new(new_child_state.unwrap()));
             }
+        } else if result.is_ok() {
+            // There is nothing left to resume and the next parser may be a different one
+            state.0 = None;
         }
 
         result
@@ -1018,6 +1024,9 @@ where
                 // FIXME Make None unreachable for LLVM
                 state.0 = Some(Box::new(new_child_state.unwrap()));
             }
+        } else if result.is_ok() {
+            // There is nothing left to resume and the next parser may be a different one
+            state.0 = None;
         }
 
         result
-- 
2.43.0


From 3b44672eaa6b6b6a9b6eea83c332e1837a2b979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:21 +0000
Subject: [PATCH 13/14] fix: factory builds a new parser for every message

The parser a factory built was kept for as long as the factory was called in
partial mode, also after it had finished: a decoder that reads several
messages with one parser object used the parser of the first message for all
of them. The partial state now says whether the parser is suspended.
---
 src/parser/combinator.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 056b087..9a07e37 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -1166,7 +1166,8 @@ where
     R: Parser<Input, Output = O>,
 {
     type Output = O;
-    type PartialState = R::PartialState;
+    // The flag is set while the parser is suspended, with `R::PartialState` holding its progress
+    type PartialState = (bool, R::PartialState);
 
     parse_mode!(Input);
 
@@ -1179,12 +1180,19 @@ where
     where
         M: ParseMode,
     {
+        let (ref mut suspended, ref mut state) = *state;
         // Always ask for a new parser except if we are in a partial call being resumed as we want
         // to resume the same parser then
-        if mode.is_first() {
+        if mode.is_first() || !*suspended {
             self.1 = None;
+            *state = Default::default();
         }
-        self.parser(input).parse_mode_impl(mode, input, state)
+        let result = self.parser(input).parse_mode_impl(mode, input, state);
+        *suspended = match result {
+            CommitErr(_) => true,
+            _ => false,
+        };
+        result
     }
 
     fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-- 
2.43.0


From 2f34a1c63dce6c319c465e317024670c61646f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:33 +0000
Subject: [PATCH 14/14] fix: the parser count of a large sequence does not
 overflow

The count is an u8 and the sum was not saturating as it is everywhere else: a
sequence with more than 255 parsers in it panicked with "attempt to add with
overflow" (or wrapped around in a release build) when errors were collected.
---
 src/parser/sequence.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/sequence.rs b/src/parser/sequence.rs
index 3752176..7a5c61f 100644
--- a/src/parser/sequence.rs
+++ b/src/parser/sequence.rs
@@ -267,7 +267,9 @@ macro_rules! tuple_parser {
             #[inline]
             fn parser_count(&self) -> ErrorOffset {
                 let (ref $h, $(ref $id),*) = *self;
-                ErrorOffset($h.parser_count().0 $( + $id.parser_count().0)*)
+                let count = $h.parser_count().0;
+                $( let count = count.saturating_add($id.parser_count().0); )*
+                ErrorOffset(count)
             }
 
             #[inline]
-- 
2.43.0

