From af858c1e028c93c3c6f44fe92b3b77efd56f493e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 001/138] fix: Counted must not move the location forward when
 its lower bound is not reached

---
 DHParser/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 0753432..316ef97 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -3903,11 +3903,12 @@ class Counted(UnaryParser):
     @cython.locals(location_=cython.int)
     def _parse(self, location: cython.int):
         results: Tuple[Node, ...] = ()
+        start = location
         location_ = location
         for _ in range(self.repetitions[0]):
             node, location = self.parser(location)
             if node is None:
-                return None, location_
+                return None, start  # a failing parser must not move forward
             if node._result or node.name[0] != ':':
                 results += (node,)
             if location_ >= location:
-- 
2.43.0


From acc2a3427b0b20690f5fac2f40bdd191c238bde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 002/138] fix: keep the text after an uncaught mandatory
 violation if the start-parser is recursive

---
 DHParser/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 316ef97..7a3465e 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2041,7 +2041,8 @@ class Grammar:
             try:
                 result, location = parser(location)
             except ParserError as pe:
-                result, location = pe.node, L
+                # continue after the text covered by pe.node, so that the rest is not lost
+                result, location = pe.node, pe.location + pe.node_orig_len
                 for k in self.variables__:  del self.variables__[k]
             except CancelError as ce:
                 result = Node(EMPTY_NODE.name, '').with_pos(0)
-- 
2.43.0


From bd7c892c56da1df65347a88218e0aee191250090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 003/138] fix: clear captured variables after a parser error or
 cancellation without raising a RuntimeError

---
 DHParser/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 7a3465e..3a184e5 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2043,13 +2043,13 @@ class Grammar:
             except ParserError as pe:
                 # continue after the text covered by pe.node, so that the rest is not lost
                 result, location = pe.node, pe.location + pe.node_orig_len
-                for k in self.variables__:  del self.variables__[k]
+                self.variables__.clear()
             except CancelError as ce:
                 result = Node(EMPTY_NODE.name, '').with_pos(0)
                 self.tree__.new_error(
                     result, f'Parsing was canceled at position: {ce.location} of {L}!', CANCELED)
                 location = L
-                for k in self.variables__:  del self.variables__[k]
+                self.variables__.clear()
             if result is EMPTY_NODE:  # don't ever deal out the EMPTY_NODE singleton!
                 result = Node(EMPTY_PTYPE, '').with_pos(0)
 
-- 
2.43.0


From bbba940b4f759ae50650c50daad1f33f8b84bd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 004/138] fix: Interleave must count repeated occurrences of
 the same parser separately

---
 DHParser/parse.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 3a184e5..2f0c086 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4541,8 +4541,8 @@ class Interleave(ErrorCatchingNary):
         elif len(parsers) != len(repetitions):
             raise ValueError("Number of repetition-tuples unequal number of sub-parsers!")
         self.repetitions = list(repetitions)  # type: List[Tuple[int, int]]
-        self.non_mandatory = frozenset(parsers[i] for i in range(min(mandatory, len(parsers))))
-        self.parsers_set = frozenset(self.parsers)
+        # indices rather than parsers, because the same parser may occur more than once
+        self.non_mandatory = frozenset(range(min(mandatory, len(parsers))))
 
     def __deepcopy__(self, memo):
         parsers = copy.deepcopy(self.parsers, memo)
@@ -4556,12 +4556,12 @@ class Interleave(ErrorCatchingNary):
         results = ()  # type: Tuple[Node, ...]
         location_ = location  # type: int
         counter = [0] * len(self.parsers)
-        consumed = set()  # type: MutableSet[Parser]
+        consumed = set()  # type: MutableSet[int]
         error = None  # type: Optional[Error]
         while True:
             # there is an order of testing, but no promise about the order of testing, here!
             for i, parser in enumerate(self.parsers):
-                if parser not in consumed:
+                if i not in consumed:
                     node, location__ = parser(location_)
                     if node is not None:
                         if node._result or not node.name[0] == ':':  # node.anonymous:  # drop anonymous empty nodes
@@ -4569,14 +4569,14 @@ class Interleave(ErrorCatchingNary):
                             # location_ = location__
                         counter[i] += 1
                         if counter[i] >= self.repetitions[i][1]:
-                            consumed.add(parser)
+                            consumed.add(i)
                         break
             else:
-                for i, parser in enumerate(self.parsers):
+                for i in range(len(self.parsers)):
                     if counter[i] >= self.repetitions[i][0]:
-                        consumed.add(parser)
+                        consumed.add(i)
                 if self.non_mandatory <= consumed:
-                    if len(consumed) == len(self.parsers_set):  # faster than: comsumed == self.parsers_set
+                    if len(consumed) == len(self.parsers):
                         break
                 else:
                     return None, location
-- 
2.43.0


From 086ac9eb691d7ade1bdfec532fed2997925c8ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 005/138] fix: negated parsers must not turn an already negated
 farthest-fail-position into a false one

---
 DHParser/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 2f0c086..d219126 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4689,7 +4689,7 @@ def _negative_match(grammar, bool_value) -> bool:
     else:
         # invert the farthest failure, because, due to negation, it's not
         # a failure anymore and should be overwritten by any other failure
-        grammar.ff_pos__ = -grammar.ff_pos__
+        grammar.ff_pos__ = -abs(grammar.ff_pos__)  # never turn a negative value positive
         return True
 
 
-- 
2.43.0


From 26c843b39f180a1cd2ff13e98aabf9fa2468e186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 006/138] fix: a text only partially matched is reported at the
 position where parsing stopped, even after dropped content

---
 DHParser/parse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index d219126..7355ed6 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2068,7 +2068,7 @@ class Grammar:
                                      self.text__[location:]) is None)):
                 rest = self.document__[location:]
                 fwd = rest.find("\n") + 1 or len(rest)
-                skip, location = rest[:fwd], location + fwd
+                stop, skip, location = location, rest[:fwd], location + fwd
                 if result is None or (result.name == ZOMBIE_TAG and len(result) == 0):
                     err_pos = self.ff_pos__
                     associated_symbol = self.associated_symbol__(self.ff_parser__)
@@ -2122,7 +2122,7 @@ class Grammar:
                         error_code = PARSER_LOOKAHEAD_MATCH_ONLY
                         max_parser_dropouts = -1  # no further retries!
                     else:
-                        i = self.ff_pos__ if self.ff_pos__ >= 0 else tail_pos(stitches)
+                        i = self.ff_pos__ if self.ff_pos__ >= 0 else stop
                         err_pos = i
                         fs = self.document__[i:i + 10].replace('\n', '\\n')
                         if i + 10 < len(self.document__) - 1:  fs += '...'
@@ -2136,7 +2136,7 @@ class Grammar:
                              else " too often!" if self.max_parser_dropouts__ > 1 else " " +
                              "Terminating parser.")
                         error_code = PARSER_STOPPED_BEFORE_END
-                stitch = Node(ZOMBIE_TAG, skip).with_pos(tail_pos(stitches))
+                stitch = Node(ZOMBIE_TAG, skip).with_pos(stop)
                 stitches.append(stitch)
                 if stitch.pos > 0:
                     if self.ff_pos__ > err_pos:
@@ -2171,7 +2171,7 @@ class Grammar:
         if stitches:
             if location < L:
                 stitches.append(Node(ZOMBIE_TAG, self.document__[location:])\
-                                .with_pos(tail_pos(stitches)))
+                                .with_pos(location))
             result = Node(ZOMBIE_TAG, tuple(stitches)).with_pos(0)
         if any(self.variables__.values()):
             # capture stack not empty will only be reported for root-parsers
-- 
2.43.0


From cf31cb3290f9001bbe4d8018c930428c6b71c419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 007/138] fix: a mandatory violation in an interleave must not
 raise an AssertionError when its node is just the error node

---
 DHParser/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 7355ed6..8fe7c3d 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4593,7 +4593,7 @@ class Interleave(ErrorCatchingNary):
         nd = self._return_values(results)  # type: Node
         if error and reloc < 0:  # no worry: reloc is always defined when error is True
             # parser will be moved forward, even if no relocation point has been found
-            raise ParserError(self, nd.with_pos(location),
+            raise ParserError(self, nd.with_pos(location_),
                               location_ - location,
                               location, error, first_throw=True)
         return nd, location_
-- 
2.43.0


From 1494e0155dee19fd45f6e3dbac35a3e7dc3f1c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 008/138] fix: the text skipped by a resume-rule must be added
 at the end of the recovered node, not filled into the first empty artifact

---
 DHParser/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 8fe7c3d..101ab58 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -685,7 +685,7 @@ class Parser:
             assert pe.node._children or (not pe.node.result)
             # apply reentry-rule or catch error at root-parser
             if i < 0:  i = 0
-            zombie = pe.node.pick_child(artifact)  # type: Optional[Node]
+            zombie = pe.node.pick_child(artifact, reverse=True)  # type: Optional[Node]
             if zombie and not zombie.result:
                 zombie.result = rest[:i]
                 zombie.name = skip_node.name
-- 
2.43.0


From 38fe228775a6dbabe3f928d79c9e690d1ebf7dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:55 +0000
Subject: [PATCH 009/138] fix: whether a symbol can capture zero-length text
 must not be decided with the document just parsed

---
 DHParser/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 101ab58..e5782bc 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4846,7 +4846,9 @@ class Capture(ContextSensitive):
     @property
     def can_capture_zero_length(self) -> bool:
         if self._can_capture_zero_length is None:
-            self._can_capture_zero_length = self.parser._parse(0)[0] is not None
+            # probe with an empty document rather than the document just being parsed
+            probe = Grammar(self.parser, static_analysis=False)
+            self._can_capture_zero_length = not probe('').errors
         return cast(bool, self._can_capture_zero_length)
 
     def _rollback(self):
-- 
2.43.0


From b1a38bfb6d7dde4d4c69585a6c76d9622c975124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 010/138] fix: Pop must not pop from an empty stack when the
 very same error has already been reported

---
 DHParser/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index e5782bc..99b914f 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -5070,7 +5070,7 @@ class Pop(Retrieve):
     @cython.locals(location_=cython.int)
     def _parse(self, location: cython.int) -> ParsingResult:
         node, location_ = self.retrieve_and_match(location)
-        if node is not None and not id(node) in self._grammar.tree__.error_nodes:
+        if node is not None and self._grammar.variables__[self.symbol_pname]:
             self.values.append(self._grammar.variables__[self.symbol_pname].pop())
             self._grammar.push_rollback__(self._rollback_location(location, location_), self._rollback)
         else:
-- 
2.43.0


From c668f4bc2562544f71cc1193d72c941acce6306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:40 +0000
Subject: [PATCH 011/138] fix: parsers used in skip- and resume-rules must be
 reset even if they are connected to the root-parser, but not to the
 start-parser

---
 DHParser/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 99b914f..0475b8f 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1807,9 +1807,10 @@ class Grammar:
                 if isinstance(l[i], Parser):
                     p = self[l[i].pname]  # deep-copy and initialize with grammar-object
                     l[i] = p
+                    # must always be reset, because it need not be connected to the start-parser
+                    self.resume_parsers__.add(p)
                     if p not in root_connected:
                         self.unconnected_parsers__.add(p)
-                        self.resume_parsers__.add(p)
         for name in self.__class__.parser_names__:
             parser = self[name]  # deep-copy and initialize with grammar-object (see __getitem__)
             if parser not in root_connected:  self.unconnected_parsers__.add(parser)
-- 
2.43.0


From 837490379fe5ad50d844859b919e1f38d531a46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:08 +0000
Subject: [PATCH 012/138] fix: a new grammar object must not replace the
 parsers in the skip- and resume-rules of other objects of the same class

---
 DHParser/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 0475b8f..e68f766 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1798,9 +1798,12 @@ class Grammar:
         self.unconnected_parsers__: MutableSet[Parser] = set()
         self.resume_parsers__: MutableSet[Parser] = set()
         resume_lists = []
+        # copy the rules, so that grammar objects do not replace each other's parsers
         if hasattr(self, 'resume_rules__'):
+            self.resume_rules__ = {sym: list(l) for sym, l in self.resume_rules__.items()}
             resume_lists.extend(self.resume_rules__.values())
         if hasattr(self, 'skip_rules__'):
+            self.skip_rules__ = {sym: list(l) for sym, l in self.skip_rules__.items()}
             resume_lists.extend(self.skip_rules__.values())
         for l in resume_lists:
             for i in range(len(l)):
-- 
2.43.0


From 883fe841c898621179b2e42a0cfd567ab5de3db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:05 +0000
Subject: [PATCH 013/138] fix: skip-rules with a disposable parser that matches
 the empty string or drops its content must not raise an error

---
 DHParser/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index e68f766..a549d10 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -441,7 +441,8 @@ def reentry_point(rest: StringView,
                 pos = len(rest) - len(_text)
                 if pos < closest_match:
                     closest_match = pos
-                    skip_node = _node
+                    # the EMPTY_NODE cannot be used, because it is immutable
+                    skip_node = _node if _node is not EMPTY_NODE else None
         else:
             if callable(rule):
                 search_func = algorithm_search
-- 
2.43.0


From 3d9d23c9e5afa3f3ae59026ba7f25ef12e866803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 014/138] fix: the search for a re-entry point must not loop
 forever if a string does not occur in a text that begins with a comment

---
 DHParser/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index a549d10..c8742b7 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -411,7 +411,7 @@ def reentry_point(rest: StringView,
         while a < b <= k + length:
             a, b = next_comment()
         # find next as long as start or end point of resume regex are inside a comment
-        while (a < k < b) or (a < k + length < b):
+        while k >= 0 and ((a < k < b) or (a < k + length < b)):
             k, length = search_func(search_rule, b)
             while a < b <= k:
                 a, b = next_comment()
-- 
2.43.0


From d674a3448ce3c1c0e76663f679ba94bd358f6f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:32 +0000
Subject: [PATCH 015/138] fix: text skipped by a resume-rule must be stored as
 string so that it can be merged with its neighbours

---
 DHParser/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index c8742b7..4f45198 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -688,7 +688,7 @@ class Parser:
             if i < 0:  i = 0
             zombie = pe.node.pick_child(artifact, reverse=True)  # type: Optional[Node]
             if zombie and not zombie.result:
-                zombie.result = rest[:i]
+                zombie.result = str(rest[:i])
                 zombie.name = skip_node.name
                 tail = tuple()  # type: ChildrenType
             else:
-- 
2.43.0


From 9df461250afc6759dd9dd52609f870a1a2502f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:20 +0000
Subject: [PATCH 016/138] fix: a mandatory violation in a parser that drops its
 content must not raise an error

---
 DHParser/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 4f45198..fca034d 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4478,6 +4478,8 @@ class Series(ErrorCatchingNary):
         ret_node = self._return_values(tuple(results))  # type: Node
         if error and reloc < 0:  # no worry: reloc is always defined when error is True
             # parser will be moved forward, even if no relocation point has been found
+            if ret_node is EMPTY_NODE:  # don't drop errors (and never assign a position to the EMPTY_NODE)
+                ret_node = Node(self.node_name, tuple(results))
             raise ParserError(self, ret_node.with_pos(location_),
                               location_ - location,
                               location, error, first_throw=True)
@@ -4598,6 +4600,8 @@ class Interleave(ErrorCatchingNary):
         nd = self._return_values(results)  # type: Node
         if error and reloc < 0:  # no worry: reloc is always defined when error is True
             # parser will be moved forward, even if no relocation point has been found
+            if nd is EMPTY_NODE:  # don't drop errors (and never assign a position to the EMPTY_NODE)
+                nd = Node(self.node_name, results)
             raise ParserError(self, nd.with_pos(location_),
                               location_ - location,
                               location, error, first_throw=True)
-- 
2.43.0


From 13806ff9fe1b90581d0a03b5fa4d4a636e5b9a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:42 +0000
Subject: [PATCH 017/138] fix: history-recording must not fail if the first
 recorded match is that of a parser containing only whitespace

---
 DHParser/trace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/trace.py b/DHParser/trace.py
index e7e0f67..94d687a 100644
--- a/DHParser/trace.py
+++ b/DHParser/trace.py
@@ -266,7 +266,7 @@ def trace_history(self: Parser, location: cython.int) -> Tuple[Optional[Node], c
     if ((self.node_name != WHITESPACE_PTYPE)
         and (grammar.moving_forward__
              or (not self.disposable
-                 and (node and grammar.history__[-1].node))
+                 and (node and (not grammar.history__ or grammar.history__[-1].node)))
              or result_changed(node, grammar.history__))):
         # record history
         # TODO: Make dropping insignificant whitespace from history configurable
@@ -279,7 +279,7 @@ def trace_history(self: Parser, location: cython.int) -> Tuple[Optional[Node], c
             if len(record.call_stack) >= 2 and \
                     record.call_stack[-2][0] in (":Lookbehind", ":NegativeLookbehind"):
                 record.text = grammar.reversed__[len(grammar.document__) - location_:]
-            if not grammar.moving_forward__ \
+            if not grammar.moving_forward__ and grammar.history__ \
                     and not any(tag in (':Lookahead', ":NegativeLookahead")
                                 or tag.endswith(":SmartRE_Lookahead")
                                 for tag, _ in grammar.history__[-1].call_stack):
-- 
2.43.0


From 02aa7da1b1576f0353fb82580a2ec9b36ae34e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 018/138] fix: select_path() starting from a path applies
 skip_subtree to siblings of the path, too, and yields the root of a skipped
 subtree like Node.select_path()

---
 DHParser/nodetree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 2f518a3..f4f76d0 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -4106,12 +4106,12 @@ def select_path_if(start_path: Path,
         nonlocal match_func, reverse, skip_func
         if match_func(path):
             yield path
+        if skip_func(path):
+            return
         top = path[-1]
         child_iterator = reversed(top._children) if reverse else top._children
         for child in child_iterator:
-            child_path = path + [child]
-            if not skip_func(child_path):
-                yield from recursive(child_path)
+            yield from recursive(path + [child])
 
     path = start_path.copy()
     while path:
-- 
2.43.0


From 3d4d868959e5e5a02407ca47717fe19d54013c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 019/138] fix: ContentMapping.get_node_index() finds nodes the
 first or last leaf of which is not part of the mapping

---
 DHParser/nodetree.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index f4f76d0..d4d869b 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -5371,16 +5371,12 @@ class ContentMapping:
         if node is None:
             return -1
         if reverse:
-            while node.children:
-                node = node.children[-1]
             for i in range(len(self._path_list) - 1, -1, -1):
-                if self._path_list[i][-1] == node:
+                if node in self._path_list[i]:
                     return i
         else:
-            while node.children:
-                node = node.children[0]
             for i in range(len(self._path_list)):
-                if self._path_list[i][-1] == node:
+                if node in self._path_list[i]:
                     return i
         return -1
 
-- 
2.43.0


From 5607f89d61d8ce7432e820b047f9f8ac6adb7387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 020/138] fix: insert_node() keeps the attributes of a leaf
 that it splits

---
 DHParser/nodetree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index d4d869b..0c0dc52 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -4423,6 +4423,9 @@ def insert_node(leaf_path: Path, rel_pos: int, node: Node,
         else:
             pred = Node(leaf.name, content[:rel_pos])
             succ = Node(leaf.name, content[rel_pos:])
+        if leaf.has_attr():
+            pred.with_attr(leaf.attr)
+            succ.with_attr(leaf.attr)
         return (pred, node, succ)
 
     assert leaf_path
-- 
2.43.0


From ac5c21fbe6561e57dc07f567f1b89b718816b8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 021/138] fix: content mapping is updated if a node was
 inserted next to a leaf or a leaf was replaced

---
 DHParser/nodetree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 0c0dc52..2e13678 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -5599,6 +5599,10 @@ class ContentMapping:
         end_path = self._path_list[last_index]
         common_ancestor, i = find_common_ancestor(start_path, end_path)
         assert common_ancestor
+        if 0 < i == len(start_path) - 1:
+            # a leaf might have been replaced or have received new siblings
+            i -= 1
+            common_ancestor = start_path[i]
         while first_index > 0 and self._path_list[first_index - 1][i:i + 1] == [common_ancestor]:
             first_index -= 1
         last = len(self._path_list) - 1
-- 
2.43.0


From 2ec635affe6c151c9500d384bde3a53cd0c4fd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 022/138] fix: content mapping keeps the right text if a markup
 has split the last leaf concerned

---
 DHParser/nodetree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 2e13678..ed82e81 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -5613,7 +5613,7 @@ class ContentMapping:
         content, offsets, paths = self._generate_mapping(common_ancestor, stump)
         assert offsets[0] == 0
         start_pos = self._pos_list[first_index]
-        end_pos = self._pos_list[last_index] + self._path_list[last_index][-1].strlen()
+        end_pos = self._pos_list[last_index + 1] if last_index < last else len(self.content)
         offsets = [offset + start_pos for offset in offsets]
         if stump:  paths = [stump + path for path in paths]
 
-- 
2.43.0


From 6ba457931f7e3eb0ec659003c79fee72f22f16c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 023/138] fix: markup on restricted content mappings does not
 mistake selected leaves for ignored ones

---
 DHParser/nodetree.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index ed82e81..1a9416e 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -5822,22 +5822,30 @@ class ContentMapping:
                                            self.get_path_index(end_pos, left_biased=True))
             return NodeLocation(common_ancestor, path_index)
 
+        select_func, ignore_func = LEAF_PATH, NO_PATH
+        if not (self.select_func is LEAF_PATH and self.ignore_func is NO_PATH):
+            # leaves outside the mapping, determined beforehand, because the full path,
+            # which the criteria may depend on, is not known any more when splitting
+            unmapped = {id(leaf) for leaf in common_ancestor.select_if(LEAF_NODE)}
+            unmapped -= {id(path[-1]) for path in self._path_list}
+            select_func = lambda pth: LEAF_PATH(pth) and id(pth[-1]) not in unmapped
+
         stump_A = path_A[i:]
         stump_B = path_B[i:]
 
         q = can_split(
-            stump_A, pos_A, False, self.greedy, self.select_func, self.ignore_func, divisible)
+            stump_A, pos_A, False, self.greedy, select_func, ignore_func, divisible)
         r = can_split(
-            stump_B, pos_B, True, self.greedy, self.select_func, self.ignore_func, divisible)
+            stump_B, pos_B, True, self.greedy, select_func, ignore_func, divisible)
 
         i = -1
         k = -1
         if q < abs(q) == len(stump_A) - 1:
-            i = deep_split(stump_A, pos_A, False, self.greedy, self.select_func,
-                           self.ignore_func, self.chain_attr_name)
+            i = deep_split(stump_A, pos_A, False, self.greedy, select_func,
+                           ignore_func, self.chain_attr_name)
         if r < abs(r) == len(stump_B) - 1:
-            k = deep_split(stump_B, pos_B, True, self.greedy, self.select_func,
-                           self.ignore_func, self.chain_attr_name)
+            k = deep_split(stump_B, pos_B, True, self.greedy, select_func,
+                           ignore_func, self.chain_attr_name)
 
         if i >= 0 and k >= 0:
             attr_dict.pop(self.chain_attr_name, None)
@@ -5849,7 +5857,7 @@ class ContentMapping:
             nd = Node(name, common_ancestor[i:t]).with_attr(attr_dict)
             nd._pos = common_ancestor[i]._pos
             markup_left(stump_B[1:], pos_B, name, attr_dict,
-                        self.greedy, self.select_func, self.ignore_func,
+                        self.greedy, select_func, ignore_func,
                         divisible, self.chain_attr_name)
             common_ancestor.result = common_ancestor[:i] + (nd,) + common_ancestor[t:]
         elif k >= 0:
@@ -5857,17 +5865,17 @@ class ContentMapping:
             nd = Node(name, common_ancestor[t + 1:k]).with_attr(attr_dict)
             nd._pos = common_ancestor[t + 1]._pos
             markup_right(stump_A[1:], pos_A, name, attr_dict,
-                         self.greedy, self.select_func, self.ignore_func,
+                         self.greedy, select_func, ignore_func,
                          divisible, self.chain_attr_name)
             common_ancestor.result = common_ancestor[:t + 1] + (nd,) + common_ancestor[k:]
         else:
             t = common_ancestor.index(stump_A[1])
             u = common_ancestor.index(stump_B[1])
             markup_right(stump_A[1:], pos_A, name, attr_dict,
-                         self.greedy, self.select_func, self.ignore_func,
+                         self.greedy, select_func, ignore_func,
                          divisible, self.chain_attr_name)
             markup_left(stump_B[1:], pos_B, name, attr_dict,
-                        self.greedy, self.select_func, self.ignore_func,
+                        self.greedy, select_func, ignore_func,
                         divisible, self.chain_attr_name)
             if u - t > 1:
                 nd = Node(name, common_ancestor[t + 1:u]).with_attr(attr_dict)
-- 
2.43.0


From d06ed407756c14562a0d31bfb3c3c815d9d5fd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 024/138] fix: a deep copy of a RootNode does not share its
 tag-sets and node-errors with the original

---
 DHParser/nodetree.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 1a9416e..5930728 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -2976,7 +2976,8 @@ class RootNode(Node):
             # duplicate._attributes = copy.deepcopy(self._attributes)  # this is blocked by cython
         duplicate.errors = copy.deepcopy(self.errors, memodict)
         duplicate._error_set = {error for error in duplicate.errors}
-        duplicate.error_nodes = {map_id.get(i, i): el[:] for i, el in self.error_nodes.items()}
+        duplicate.error_nodes = {map_id.get(i, i): copy.deepcopy(el, memodict)
+                                 for i, el in self.error_nodes.items()}
         duplicate.error_positions = {pos: {map_id.get(i, i) for i in s}
                                      for pos, s in self.error_positions.items()}
         duplicate.source = self.source
@@ -2984,9 +2985,9 @@ class RootNode(Node):
         duplicate.lbreaks = copy.deepcopy(self.lbreaks, memodict)
         duplicate.error_flag = self.error_flag
 
-        duplicate.inline_tags = self.inline_tags
-        duplicate.string_tags = self.string_tags
-        duplicate.empty_tags = self.empty_tags
+        duplicate.inline_tags = set(self.inline_tags)
+        duplicate.string_tags = set(self.string_tags)
+        duplicate.empty_tags = set(self.empty_tags)
 
         duplicate.docname = self.docname
         duplicate.stage = self.stage
-- 
2.43.0


From a5eb6c845011998002af8ffc322a98d4c0817eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 025/138] fix: add_token() and remove_token() treat whole
 tokens, not parts of other tokens

---
 DHParser/nodetree.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 5930728..fd3f78d 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3788,7 +3788,7 @@ def add_token(token_sequence: str, token: str) -> str:
         'red thin stroked'
     """
     for tk in token.split(' '):
-        if tk and token_sequence.find(tk) < 0:
+        if tk and tk not in token_sequence.split(' '):
             token_sequence += ' ' + tk
     return token_sequence.lstrip()
 
@@ -3804,9 +3804,8 @@ def remove_token(token_sequence, token: str) -> str:
         >>> remove_token('red thin stroked', 'blue stroked')
         'red thin'
     """
-    for tk in token.split(' '):
-        token_sequence = token_sequence.replace(tk, '').strip().replace('  ', ' ')
-    return token_sequence
+    tokens = token.split(' ')
+    return ' '.join(tk for tk in token_sequence.split(' ') if tk and tk not in tokens)
 
 
 def eq_tokens(token_sequence1: str, token_sequence2: str) -> bool:
-- 
2.43.0


From 1a7bcae324100bb347c755ac6ad1a43d0e29af2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 026/138] fix: flatten_sxpr() leaves the content of strings and
 attributes as it is

---
 DHParser/nodetree.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index fd3f78d..ac5151a 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -416,6 +416,9 @@ RX_IS_XML = LazyRE(r'\s*<')
 RX_ATTR_NAME = LazyRE(r'[\w.:-]')
 
 
+RX_SXPR_STRING = re.compile(r'''((?<=\s)"[^"]*"(?=[\s)])|(?<=\s)'[^']*'(?=[\s)]))''')
+
+
 def flatten_sxpr(sxpr: str, threshold: int = -1) -> str:
     """
     Returns S-expression ``sxpr`` as a one-liner without unnecessary
@@ -442,14 +445,12 @@ def flatten_sxpr(sxpr: str, threshold: int = -1) -> str:
     assert RX_IS_SXPR.match(sxpr)
     if threshold == 0:
         return sxpr
-    flat = re.sub(r'\s(?=\))', '', re.sub(r'\n\s*', ' ', sxpr)).strip()
-    l = flat.split('"')
-    if len(l) > 1:
-        for i in range(0, len(l), 2):
-            l[i] = re.sub(r'  +', ' ', l[i])
-        flat = '"'.join(l)
-    else:
-        flat =  re.sub(r'  +', ' ', flat)
+    # whitespace inside of strings must not be touched
+    l = RX_SXPR_STRING.split(sxpr)
+    for i in range(0, len(l), 2):
+        l[i] = re.sub(r'\s*\n\s*|  +', ' ', l[i])
+        l[i] = re.sub(r'\s+(?=\))', '', l[i])
+    flat = ''.join(l).strip()
     if len(flat) > threshold > 0:
         return sxpr.strip()
     return flat
-- 
2.43.0


From 2dc611478237d73a92d8eccaeaf64973f9ac36b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 027/138] fix: parse_xml() reads attribute values that are
 single-quoted or contain line-breaks or >

---
 DHParser/nodetree.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index ac5151a..9be819e 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3471,7 +3471,9 @@ def parse_sxml(sxml: Union[str, StringView]) -> RootNode:
 
 
 RX_WHITESPACE_TAIL = LazyRE(r'\s*$')
-RX_XML_ATTRIBUTES = LazyRE(r'\s*(?P<attr>[\w:.-]+)\s*=\s*"(?P<value>.*?)"\s*')
+RX_XML_ATTRIBUTES = LazyRE(
+    r'''\s*(?P<attr>[\w:.-]+)\s*=\s*(?:"(?P<value>[^"]*)"|'(?P<sq_value>[^']*)')\s*''')
+RX_XML_UP_TO_TAG_END = LazyRE(r'''(?:=\s*"[^"]*"|=\s*'[^']*'|[^>])*''')
 RX_XML_SPECIAL_TAG = LazyRE(r'<(?![?!])')
 RX_XML_OPENING_TAG = LazyRE(r'<\s*(?P<tagname>[\w:.-]+)\s*')
 RX_XML_CLOSING_TAG = LazyRE(r'</\s*(?P<tagname>[\w:.-]+)\s*>')
@@ -3531,13 +3533,13 @@ def parse_xml(xml: Union[str, StringView],
         beginning after the end of the attr.
         """
         attributes = dict()  # type: Dict[str, Any]
-        eot = s.find('>')
+        eot = s.index(s.match(RX_XML_UP_TO_TAG_END).end())
         restart = 0
         for match in s.finditer(RX_XML_ATTRIBUTES):
             if s.index(match.start()) >= eot:
                 break
             d = match.groupdict()
-            attributes[d['attr']] = d['value']
+            attributes[d['attr']] = d['sq_value'] if d['value'] is None else d['value']
             restart = s.index(match.end())
         return s[restart:], attributes
 
-- 
2.43.0


From 540c400b867fac032d6544f0bf6fc14856e0841f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 028/138] fix: parse_sxpr() finds the end of triple-quoted
 strings that contain quotation marks

---
 DHParser/nodetree.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 9be819e..efab0ef 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3348,7 +3348,11 @@ def parse_sxpr(sxpr: Union[str, StringView]) -> RootNode:
                 k = 1
                 while level > 0:
                     if s[k] in ("'", '"'):
-                        k = s.find(str(s[k]), k + 1)
+                        qtmark = str(s[k])
+                        if s[k:k + 3] == qtmark * 3 and s.find(qtmark * 3, k + 3) >= 0:
+                            k = s.find(qtmark * 3, k + 3) + 2
+                        else:
+                            k = s.find(qtmark, k + 1)
                     if k < 0:
                         raise IndexError()
                     if s[k] == '(':
-- 
2.43.0


From 34d92b216a1b1dbebd7f7fac5073a7cef3166a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 029/138] fix: as_sxpr() writes text with both kinds of
 quotation marks so that it can be read again

---
 DHParser/nodetree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index efab0ef..2eaf3c2 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -416,7 +416,8 @@ RX_IS_XML = LazyRE(r'\s*<')
 RX_ATTR_NAME = LazyRE(r'[\w.:-]')
 
 
-RX_SXPR_STRING = re.compile(r'''((?<=\s)"[^"]*"(?=[\s)])|(?<=\s)'[^']*'(?=[\s)]))''')
+RX_SXPR_STRING = re.compile(
+    r'''((?<=\s)(?:"""[^\n]*?"""|'{3}[^\n]*?'{3}|"[^"]*"|'[^']*')(?=[\s)]))''')
 
 
 def flatten_sxpr(sxpr: str, threshold: int = -1) -> str:
@@ -2047,6 +2048,8 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
             strg = subf(RX_CTRL_CHARS, ascii_char_code, strg)
             return '"%s"' % strg if strg.find('"') < 0 \
                 else "'%s'" % strg if strg.find("'") < 0 \
+                else '"""%s"""' % strg if strg.find('"""') < 0 and strg[-1] != '"' \
+                else "'''%s'''" % strg if strg.find("'''") < 0 and strg[-1] != "'" \
                 else '"%s"' % strg.replace('"', r'\"')
 
         def reflow(tab: str, content: str, depth: int) -> str:
-- 
2.43.0


From 2d17d56f124e41eedc8fdc35a3fd78b1faceae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 030/138] fix: attribute values that contain double quotation
 marks survive the S-expression-serialization

---
 DHParser/nodetree.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 2eaf3c2..9eda0bf 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -2005,9 +2005,12 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
             else None  # type: Optional[RootNode]
         inner_content: str = ""
 
-        def attr(name: str, value: str):
-            if sxml:  return f' ({name} "{value}")'
-            else:  return f' `({name} "{value}")'
+        def attr(name: str, value: str, qtmark: str = '"'):
+            if sxml:  return f' ({name} {qtmark}{value}{qtmark})'
+            else:  return f' `({name} {qtmark}{value}{qtmark})'
+
+        def attr_qtmark(value: str) -> str:
+            return "'" if value.replace('\\"', '').find('"') >= 0 and value.find("'") < 0 else '"'
 
         def opening(node: Node) -> str:
             """Returns the opening string for the representation of `node`."""
@@ -2022,7 +2025,7 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
             if show_attrs or sxml >= 2:
                 if sxml:  txt.append(' (@')
                 if has_attrs:
-                    txt.extend(attr(k, str(v)) for k, v in node.attr.items())
+                    txt.extend(attr(k, str(v), attr_qtmark(str(v))) for k, v in node.attr.items())
                 if render_pos:
                     if src:
                         line, col = line_col(lbreaks, node.pos)
@@ -3308,6 +3311,7 @@ def reflow_as_oneliner(tree: Node,
 
 
 RX_SXPR_INNER_PARSER = LazyRE(r'[?]?[\w.:-]+')
+RX_SXPR_SINGLE_QUOTED_ATTR = LazyRE(r"[\w.:-]+\s*'[^']*'\s*\)")
 RX_SXPR_NOTEXT = LazyRE(r'(?:(?!\)).)*', re.DOTALL)
 RX_SXPR_TEXT = {qtmark: LazyRE(qtmark + r'.*?' + qtmark, re.DOTALL)
                 for qtmark in ['"""', "'''", '"', "'"]}
@@ -3379,9 +3383,13 @@ def parse_sxpr(sxpr: Union[str, StringView]) -> RootNode:
         L: int = len(attr_start)
         while sxpr[:L] == attr_start:
             i = sxpr.find('"')
+            qtmark = '"'
+            if sxpr[L:].match(RX_SXPR_SINGLE_QUOTED_ATTR):
+                i = sxpr.find("'")
+                qtmark = "'"
             k = sxpr.find(')')
             if k > i:
-                k = sxpr.find(')', sxpr.find('"', i + 1))
+                k = sxpr.find(')', sxpr.find(qtmark, i + 1))
             if i < 0:
                 i = k + 1
             if k < 0:
-- 
2.43.0


From 6e0785ff34dc6910590b7a954439b026c2de9b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 031/138] fix: parse_sxpr() reads the position from pos-entries
 with line and column

---
 DHParser/nodetree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 9eda0bf..6265bd1 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3388,7 +3388,7 @@ def parse_sxpr(sxpr: Union[str, StringView]) -> RootNode:
                 i = sxpr.find("'")
                 qtmark = "'"
             k = sxpr.find(')')
-            if k > i:
+            if k > i >= 0:
                 k = sxpr.find(')', sxpr.find(qtmark, i + 1))
             if i < 0:
                 i = k + 1
@@ -3396,7 +3396,8 @@ def parse_sxpr(sxpr: Union[str, StringView]) -> RootNode:
                 raise ValueError('Unbalanced parantheses in S-Expression: ' + str(sxpr))
             # read very special attribute pos
             if sxpr[L:L + 3] == "pos" and (L == 1 or 0 < k < i):
-                pos = int(str(sxpr[L + 3:k].strip(' \'"').split(' ')[0]))
+                # if line and column are given as well, the position is the last number
+                pos = int(str(sxpr[L + 3:k].strip(' \'"')).split(' ')[-1])
             # ignore very special attribute err
             elif sxpr[L:L + 3] == "err" and 0 <= sxpr.find('`', L + 3) < k:
                 m = sxpr.find('(', L + 3)
-- 
2.43.0


From 31a096a6900104f9e541e395216fa74b09946461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 032/138] fix: as_xml() does not indent the lines of inlined
 text

---
 DHParser/nodetree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 6265bd1..de98dbc 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -1871,7 +1871,7 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
                         i += 1
                     while k >= 0 and not lines[k]:
                         k -= 1
-                tb = usetab + (tab if reflow or not inline else '')
+                tb = '' if inline else usetab + tab
                 content = [usetab + head, tb] if hlf else [usetab + head]  # + tb?
                 for line in lines[i:k]:
                     content[-1] += line
-- 
2.43.0


From 4a0488165906d5e958cc6bb38345863467d20727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 033/138] fix: parse_xml() does not mistake elements named like
 text-nodes for plain text

---
 DHParser/nodetree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index de98dbc..5ef5a14 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3624,6 +3624,7 @@ def parse_xml(xml: Union[str, StringView],
         """
         nonlocal non_empty_tags, dual_use_notified
         res = []  # type: List[Node]
+        text_only = True
         substring = s
         s, tagname, attrs, solitary = parse_opening_tag(s)
         name, class_name = (tagname.split(":") + [''])[:2]
@@ -3666,6 +3667,7 @@ def parse_xml(xml: Union[str, StringView],
                     elif s[:2] != "</":
                         s, child = parse_full_content(s)
                         res.append(child)
+                        text_only = False
             s, closing_tagname = parse_closing_tag(s)
             if tagname != closing_tagname:
                 if strict_mode:
@@ -3677,7 +3679,7 @@ def parse_xml(xml: Union[str, StringView],
                 else:
                     print(f'{get_pos_str(substring)} - {get_pos_str(s)}'
                           f' Tag-name mismatch: <{tagname}>...</{closing_tagname}>!')
-        if len(res) == 1 and res[0].name == string_tag:
+        if len(res) == 1 and text_only:
             result = res[0].result  # type: Union[Tuple[Node, ...], StringView, str]
         else:
             result = tuple(res)
-- 
2.43.0


From 8392d86f60d7210ead9512b672a62be02de0a80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 034/138] fix: from_etree() keeps the attributes of elements
 that have child-elements

---
 DHParser/nodetree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 5ef5a14..e4fa077 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -2709,7 +2709,7 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
                 children.append(Node.from_etree(el, string_tag))
                 if el.tail:
                     children.append(Node(string_tag, el.tail))
-            node = Node(restore_tag_name(et.tag), tuple(children))
+            node = Node(restore_tag_name(et.tag), tuple(children)).with_attr(et.attrib)
         else:
             node = Node(restore_tag_name(et.tag), et.text or '').with_attr(et.attrib)
         return node
-- 
2.43.0


From 3f5379a30ba66f0cd2ff80e04fb900550a91c906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 035/138] fix: indexing a StringView with a negative index
 counts from its end

---
 DHParser/stringview.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DHParser/stringview.py b/DHParser/stringview.py
index bf7ac04..82e1b48 100644
--- a/DHParser/stringview.py
+++ b/DHParser/stringview.py
@@ -195,8 +195,10 @@ class StringView:  # collections.abc.Sized
             return StringView(self._text, _begin + start, _begin + stop)
         except AttributeError:
             _index = index
-            if _index >= self._len:
-                raise IndexError("StringView index %i out of range 0 - %i" % (_index, self._len))
+            if _index < 0:
+                _index += self._len
+            if _index >= self._len or _index < 0:
+                raise IndexError("StringView index %i out of range 0 - %i" % (index, self._len))
             _begin = self._begin
             return StringView(self._text, self._begin + _index, self._begin + _index + 1)
             # return self._text[self._begin + index] # leads to type errors
-- 
2.43.0


From a9db4ffda0f97404ec944b51515088d458404e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 036/138] fix: StringView.startswith() and endswith() treat
 start and end like slice-bounds

---
 DHParser/stringview.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/DHParser/stringview.py b/DHParser/stringview.py
index 82e1b48..8ce94b8 100644
--- a/DHParser/stringview.py
+++ b/DHParser/stringview.py
@@ -272,9 +272,8 @@ class StringView:  # collections.abc.Sized
         With optional `start`, test S beginning at that position.
         With optional `end`, stop comparing S at that position.
         """
-        start += self._begin
-        end = self._end if end is None else self._begin + end
-        return self._text.startswith(prefix, start, end)
+        start, end = fast_real_indices(start, end, self._len)
+        return self._text.startswith(prefix, self._begin + start, self._begin + end)
 
     def endswith(self,
                  suffix: str,
@@ -284,9 +283,8 @@ class StringView:  # collections.abc.Sized
         With optional `start`, test S beginning at that position.
         With optional `end`, stop comparing S at that position.
         """
-        start += self._begin
-        end = self._end if end is None else self._begin + end
-        return self._text.endswith(suffix, start, end)
+        start, end = fast_real_indices(start, end, self._len)
+        return self._text.endswith(suffix, self._begin + start, self._begin + end)
 
     def match(self, regex, flags: cython.int = 0):
         """Executes `regex.match` on the StringView object and returns the
-- 
2.43.0


From 1e3f0f8c0ee8c60eefcb19c818cbef20e8406604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 037/138] fix: StringView.split() without separator or with an
 empty separator

---
 DHParser/stringview.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/stringview.py b/DHParser/stringview.py
index 8ce94b8..1acf288 100644
--- a/DHParser/stringview.py
+++ b/DHParser/stringview.py
@@ -363,8 +363,8 @@ class StringView:  # collections.abc.Sized
         whitespace string is a separator and empty strings are
         removed from the result.
         """
-        if self._fullstring:
-            return self._fullstring.split(sep)
+        if self._fullstring or not sep:
+            return str(self).split(sep)
         else:
             pieces = []   # type: List[Union['StringView', str]]
             length = len(sep)
-- 
2.43.0


From 4ce69d63455715529ab006a7ba94d9c1cf709cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 038/138] fix: a StringView with swapped bounds is an empty
 string

---
 DHParser/stringview.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DHParser/stringview.py b/DHParser/stringview.py
index 1acf288..7f151f3 100644
--- a/DHParser/stringview.py
+++ b/DHParser/stringview.py
@@ -121,6 +121,7 @@ class StringView:  # collections.abc.Sized
         _len = _end - _begin  # type: int
         if _len < 0:
             _len = 0
+            _end = _begin
         self._begin = _begin   # type: int
         self._end = _end       # type: int
         self._len = _len       # type: int
-- 
2.43.0


From 113a62aee24298d4d5cb9bdef35d1fb75df63e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 039/138] fix: the in-operator finds sub-strings in a
 StringView

---
 DHParser/stringview.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DHParser/stringview.py b/DHParser/stringview.py
index 7f151f3..8648642 100644
--- a/DHParser/stringview.py
+++ b/DHParser/stringview.py
@@ -204,6 +204,9 @@ class StringView:  # collections.abc.Sized
             return StringView(self._text, self._begin + _index, self._begin + _index + 1)
             # return self._text[self._begin + index] # leads to type errors
 
+    def __contains__(self, sub: Union[str, StringView]) -> bool:
+        return self.find(str(sub)) >= 0
+
     def get_text(self) -> str:
         """Returns the underlying string."""
         return self._text
-- 
2.43.0


From 1ce3ad701f954e5da59f34ea19bcef5fb37b4f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 040/138] fix: TextBuffer.snapshot() uses the end-of-line
 marker it is given

---
 DHParser/stringview.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/DHParser/stringview.py b/DHParser/stringview.py
index 8648642..c4cfd67 100644
--- a/DHParser/stringview.py
+++ b/DHParser/stringview.py
@@ -487,7 +487,9 @@ class TextBuffer:
     def snapshot(self, eol: str = '\n') -> Union[str, StringView]:
         """Returns the current state of the entire text, using the given
         end of line marker (``\\n`` or ``\\r\\n``)"""
-        if self._text:
+        if self._text and (eol == '\n' or not self._buffer):
             return self._text
-        self._text = eol.join(str(line) for line in self._buffer)
-        return self._text
+        text = eol.join(str(line) for line in self._buffer)
+        if eol == '\n':
+            self._text = text
+        return text
-- 
2.43.0


From 94cc775a7ed8e072c89d468c810459ac76488d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 041/138] fix: the length of an empty TextBuffer is zero

---
 DHParser/stringview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/stringview.py b/DHParser/stringview.py
index c4cfd67..c723511 100644
--- a/DHParser/stringview.py
+++ b/DHParser/stringview.py
@@ -425,7 +425,7 @@ class TextBuffer:
         if self._text:
             return len(self._text)
         else:
-            return sum(len(line) for line in self._buffer) + len(self._buffer) - 1
+            return sum(len(line) for line in self.buffer) + len(self.buffer) - 1
 
     @property
     def buffer(self) -> List[Union[str, StringView]]:
-- 
2.43.0


From 998c0ad001fb2f909ba369d277ae5413b9c5ae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 042/138] fix: get_config_values() matches the thread's values
 against all patterns

---
 DHParser/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/configuration.py b/DHParser/configuration.py
index 963ba4e..bb28914 100644
--- a/DHParser/configuration.py
+++ b/DHParser/configuration.py
@@ -471,7 +471,7 @@ def get_config_values(key_pattern: str = "*", *additional_patterns) -> Dict:
                 cfg_values.update(cfg)
             else:
                 cfg_values.update({key: value for key, value in cfg.items()
-                                   if fnmatch.fnmatchcase(key, key_pattern)})
+                                   if fnmatch.fnmatchcase(key, pattern)})
         presets.update(cfg_values)
         cfg.update(presets)
     return presets
-- 
2.43.0


From d3c918649e27cdf31bd0bd57c0f79184c7c56a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 043/138] fix: errors in configuration data do not leave the
 presets open

---
 DHParser/configuration.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/DHParser/configuration.py b/DHParser/configuration.py
index bb28914..de2e5b6 100644
--- a/DHParser/configuration.py
+++ b/DHParser/configuration.py
@@ -275,18 +275,20 @@ def ingest_config_data(config, sources=''):
     configparser.ConfigParser-object."""
     errors = []
     access_presets()
-    for section in config.sections():
-        try:
-            if section.lower() == "dhparser":
-                for variable, value in config[section].items():
-                    set_preset_value(f"{variable}", eval(value))
-            else:
-                for variable, value in config[section].items():
-                    set_preset_value(f"{section}.{variable}", eval(value),
-                                     allow_new_key=True)
-        except ValueError as e:
-            errors.append(' '.join(e.args))
-    finalize_presets()
+    try:
+        for section in config.sections():
+            try:
+                if section.lower() == "dhparser":
+                    for variable, value in config[section].items():
+                        set_preset_value(f"{variable}", eval(value))
+                else:
+                    for variable, value in config[section].items():
+                        set_preset_value(f"{section}.{variable}", eval(value),
+                                         allow_new_key=True)
+            except (ValueError, TypeError) as e:
+                errors.append(' '.join(e.args))
+    finally:
+        finalize_presets()
     if errors:
         sources = f' files: {sources}'
         raise ValueError(f"\n\nErrors found in configuration{sources}:\n\n"
-- 
2.43.0


From 14fd4525c70aa0241577313d41440bd5d4db1803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 044/138] fix: configuration values can be read while another
 thread accesses the presets

---
 DHParser/configuration.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/DHParser/configuration.py b/DHParser/configuration.py
index de2e5b6..4fb8227 100644
--- a/DHParser/configuration.py
+++ b/DHParser/configuration.py
@@ -170,11 +170,17 @@ def access_presets():
     changed preset-values to spawned processes. For an explanation why,
     see: https://docs.python.org/3/library/multiprocessing.html#the-spawn-and-forkserver-start-methods
     """
-    global ACCESSING_PRESETS, CONFIG_PRESET
+    global ACCESSING_PRESETS
     if ACCESSING_PRESETS:
         raise AssertionError('Presets are already being accessed! '
                              'Calls to access_presets() cannot be nested.')
     ACCESSING_PRESETS = True
+    _load_presets()
+
+
+def _load_presets():
+    """Reads the presets from the syncfile, if there is one."""
+    global CONFIG_PRESET
     import multiprocessing
     mp_method = multiprocessing.get_start_method()
     if mp_method != 'fork' or CONFIG_PRESET['multicore_pool'] == 'InterpreterPool':
@@ -443,12 +449,11 @@ def get_config_value(key: str, default: Any = NO_DEFAULT) -> Any:
         try:
             return cfg[key]
         except KeyError:
-            access_presets()
+            if not ACCESSING_PRESETS:  _load_presets()
             # value = get_preset_value(key, default)
-            for k, v in CONFIG_PRESET.items():
+            for k, v in list(CONFIG_PRESET.items()):
                 if k not in cfg:
                     cfg[k] = v
-            finalize_presets()
             if default is NO_DEFAULT:
                 value = cfg[key]
             else:
@@ -459,13 +464,12 @@ def get_config_value(key: str, default: Any = NO_DEFAULT) -> Any:
 def get_config_values(key_pattern: str = "*", *additional_patterns) -> Dict:
     """Returns a dictionary of all configuration entries that match
     `key_pattern`."""
-    access_presets()
-    presets = get_preset_values(key_pattern)
-    for pattern in additional_patterns:
-        presets.update(get_preset_values(pattern))
-    finalize_presets()
     import fnmatch
     with get_access_lock():
+        if not ACCESSING_PRESETS:  _load_presets()
+        presets = {key: value for pattern in (key_pattern, *additional_patterns)
+                   for key, value in list(CONFIG_PRESET.items())
+                   if fnmatch.fnmatchcase(key, pattern)}
         cfg = _config_dict()
         cfg_values = dict()
         for pattern in (key_pattern, *additional_patterns):
-- 
2.43.0


From 9ef2e73dcb37eea3366f0098b4d0361b1d9b2a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:00 +0000
Subject: [PATCH 045/138] fix: a thread-local factory never hands out the
 instance of a deleted factory

id(self) may be reused after a factory has been garbage-collected while its
singletons live on. If the same uniqueID was given to both factories, creating
the second one failed or it returned the singleton of the first one in threads
that had used the latter.
---
 DHParser/toolkit.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 1b81546..9b78612 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -1779,13 +1779,14 @@ class ThreadLocalSingletonFactory:
         self.class_or_factory = class_or_factory
         # partial functions do not have a __name__ attribute!
         name = name or getattr(class_or_factory, '__name__', '') or class_or_factory.func.__name__
-        if not uniqueID:
-            if not hasattr(self.__class__, 'lock'):
-                import threading
-                self.__class__.lock = threading.Lock()
-            with self.__class__.lock:
-                uniqueID = gen_id()
-        self.singleton_name = f"{name}_{str(id(self))}_{str(uniqueID)}_singleton"
+        # id(self) is not unique over time, because it can be reused after a factory
+        # has been garbage-collected, while its singletons live on in THREAD_LOCALS
+        if not hasattr(self.__class__, 'lock'):
+            import threading
+            self.__class__.lock = threading.Lock()
+        with self.__class__.lock:
+            serial_number = gen_id()
+        self.singleton_name = f"{name}_{str(id(self))}_{str(uniqueID)}_{serial_number}_singleton"
         THREAD_LOCALS = access_thread_locals()
         assert not hasattr(THREAD_LOCALS, self.singleton_name), self.singleton_name
 
-- 
2.43.0


From 9e734fb2641e4fc8049351cce3e1e5fb970ded5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 046/138] fix: text_pos() is the inverse of line_col()

---
 DHParser/toolkit.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 9b78612..9ea5f9b 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -1386,19 +1386,15 @@ def text_pos(text: Union[StringView, str],
              lbreaks: List[int] = []) -> int:
     """
     Returns the text-position for a given line and column or -1 if the line
-    and column exceed the size of the text.
+    and column exceed the size of the text. This is the inverse function of
+    :py:func:`line_col`, i.e. lines and columns are counted from 1 onward.
     """
-    if lbreaks:
-        try:
-            return lbreaks[line] + column - 1
-        except IndexError:
-            return -1
-    else:
-        i = 0
-        while line > 0 and i >= 0:
-            i = text.find('\n', i + 1)
-            line -= 1
-        return i + column - 1
+    if not lbreaks:
+        lbreaks = linebreaks(text)
+    if line < 1 or line >= len(lbreaks) or column < 1:
+        return -1
+    pos = lbreaks[line - 1] + column
+    return pos if pos <= lbreaks[line] else -1
 
 
 #######################################################################
-- 
2.43.0


From 95963c0ea87040facc3db4281ed17d8f3f4583e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 047/138] fix: transfer_errors() must not attach the target to
 the positions of unrelated errors

---
 DHParser/nodetree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index e4fa077..a23d086 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3189,8 +3189,9 @@ class RootNode(Node):
             self.error_nodes.setdefault(destId, []).extend(errorList)
             del self.error_nodes[srcId]
             for nodeSet in self.error_positions.values():
-                nodeSet.discard(srcId)
-                nodeSet.add(destId)
+                if srcId in nodeSet:
+                    nodeSet.discard(srcId)
+                    nodeSet.add(destId)
 
     @property
     def errors_sorted(self) -> List[Error]:
-- 
2.43.0


From 4c81ced1cf31e4b73590c1fbe8dd491e976a1d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 048/138] fix: RootNode.swallow() hands over the errors of the
 swallowed node, instead of sharing its error-list

---
 DHParser/nodetree.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index a23d086..26a2f3e 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3055,8 +3055,7 @@ class RootNode(Node):
         if node.has_attr():
             self._attributes = node._attributes
         # self._content = node._content
-        if id(node) in self.error_nodes:
-            self.error_nodes[id(self)] = self.error_nodes[id(node)]
+        self.transfer_errors(node, self)
         if self.source:
             add_source_locations(self.errors, self.source_mapping)
         return self
-- 
2.43.0


From d65a102d4e13a1643fe83c662d4e92e06c4c13d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:20 +0000
Subject: [PATCH 049/138] fix: node_errors() reports errors of removed nodes
 only, not those of nodes further up in the tree

---
 DHParser/nodetree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 26a2f3e..8e3c1d1 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3165,7 +3165,7 @@ class RootNode(Node):
                 # add the node's errors
                 errors.extend(self.error_nodes[nid])
             elif node._children:
-                for _ in node.select_if(lambda n: id(n) == nid):
+                for _ in self.select_if(lambda n: id(n) == nid, include_root=True):
                     break
                 else:
                     # node is not connected to the tree anymore, but since errors
-- 
2.43.0


From 8b2b7cd37b828c696b725bdbda457c7f05a0a56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:20 +0000
Subject: [PATCH 050/138] fix: an error that cannot be located is not
 half-registered by add_error()

---
 DHParser/nodetree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 8e3c1d1..c50a81e 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3104,12 +3104,12 @@ class RootNode(Node):
                 "Wrong error position when processing error: %s\n" % str(error) + \
                 "%i <= %i <= %i ?" % (node.pos, error.pos, node.pos + max(1, node.strlen() - 1))
             assert node.pos >= 0, "Errors cannot be assigned to nodes without position!"
+        if self.source:
+            add_source_locations([error], self.source_mapping)
         self.error_nodes.setdefault(id(node), []).append(error)
         node = cast(Node, node)
         if node.pos <= error.pos <= node.pos + max(node.strlen(), 1):  # node.pos == error.pos:
             self.error_positions.setdefault(error.pos, set()).add(id(node))
-        if self.source:
-            add_source_locations([error], self.source_mapping)
         self.errors.append(error)
         self._error_set.add(error)
         self.error_flag = max(self.error_flag, error.code)
-- 
2.43.0


From 272bc7f7e01f0ced53afef3752b3cac3da497449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:20 +0000
Subject: [PATCH 051/138] fix: errors in empty documents receive line and
 column, too

---
 DHParser/nodetree.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index c50a81e..6dcad4c 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3056,8 +3056,7 @@ class RootNode(Node):
             self._attributes = node._attributes
         # self._content = node._content
         self.transfer_errors(node, self)
-        if self.source:
-            add_source_locations(self.errors, self.source_mapping)
+        add_source_locations(self.errors, self.source_mapping)
         return self
 
     def continue_with_data(self, data: Any):
@@ -3104,7 +3103,7 @@ class RootNode(Node):
                 "Wrong error position when processing error: %s\n" % str(error) + \
                 "%i <= %i <= %i ?" % (node.pos, error.pos, node.pos + max(1, node.strlen() - 1))
             assert node.pos >= 0, "Errors cannot be assigned to nodes without position!"
-        if self.source:
+        if self.source or self.name != '__not_yet_ready__':
             add_source_locations([error], self.source_mapping)
         self.error_nodes.setdefault(id(node), []).append(error)
         node = cast(Node, node)
-- 
2.43.0


From 07faa61c2906a10f34b7306a5057df701b017658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:20 +0000
Subject: [PATCH 052/138] fix: Error.visualize() does not cut off the last
 character of the last line

---
 DHParser/error.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DHParser/error.py b/DHParser/error.py
index 047b52d..e6cc3ca 100644
--- a/DHParser/error.py
+++ b/DHParser/error.py
@@ -385,6 +385,7 @@ class Error:
         occurred."""
         start = document.rfind('\n', 0, self.pos) + 1
         stop = document.find('\n', self.pos)
+        if stop < 0:  stop = len(document)
         return document[start:stop] + '\n' + ' ' * (self.pos - start) + '^\n'
 
     def signature(self) -> bytes:
-- 
2.43.0


From eef54828cb702ac91f488930d58da5069e092a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:20 +0000
Subject: [PATCH 053/138] fix: canonical error strings: relative paths neither
 start with a slash nor result from sibling directories

---
 DHParser/error.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/error.py b/DHParser/error.py
index e6cc3ca..c38b616 100644
--- a/DHParser/error.py
+++ b/DHParser/error.py
@@ -531,7 +531,7 @@ def canonical_error_strings(errors: List[Error]) -> List[str]:
         for err in errors:
             source_file_name = err.orig_doc
             if source_file_name and is_filename(source_file_name):
-                cwd = os.getcwd()
+                cwd = os.path.join(os.getcwd(), '')
                 if source_file_name.startswith(cwd):
                     rel_path = source_file_name[len(cwd):]
                 else:
-- 
2.43.0


From 2178b814435b49c8277c6b8210fdff79bdc686f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:55 +0000
Subject: [PATCH 054/138] fix: canonical error strings of errors in unnamed
 documents do not lose the line number

---
 DHParser/error.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/error.py b/DHParser/error.py
index c38b616..164d683 100644
--- a/DHParser/error.py
+++ b/DHParser/error.py
@@ -537,8 +537,9 @@ def canonical_error_strings(errors: List[Error]) -> List[str]:
                 else:
                     rel_path = source_file_name
                 err_str = str(err)
-                err_str = err_str[err_str.find(':'):]
-                error_strings.append(rel_path + err_str)
+                if err_str.startswith(source_file_name + ':'):
+                    err_str = err_str[len(source_file_name) + 1:]
+                error_strings.append(rel_path + ':' + err_str)
             else:
                 error_strings.append(str(err))
     else:
-- 
2.43.0


From 5047f00f2d80d6969fa85e8c72b6cb8ef1b933e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 055/138] fix: run_pipeline() runs each junction after the
 junction that yields its source-stage

---
 DHParser/pipeline.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/DHParser/pipeline.py b/DHParser/pipeline.py
index 96627e0..358f333 100644
--- a/DHParser/pipeline.py
+++ b/DHParser/pipeline.py
@@ -253,6 +253,14 @@ def run_pipeline(junctions: Set[Junction],
         else:
             return 0
 
+    def distance(junction) -> int:
+        """Returns the number of junctions between the source-stages and the junction."""
+        dist = 0
+        while junction[0] not in source_stages and dist <= len(t_to_j):
+            junction = t_to_j[junction[0]]
+            dist += 1
+        return dist
+
     def verify_stage(given_stage, junction, field, further_info=''):
         if not given_stage:  return  # verification is considered as turned off
         assert field in (0, 2)
@@ -321,7 +329,8 @@ def run_pipeline(junctions: Set[Junction],
                          f'cannot be reached with junctions: {junctions}.')
     sources = [j[0] for step in steps for j in step]
     disposables = {s for s in set(sources) if s not in target_stages and sources.count(s) <= 1}
-    steps.reverse()
+    # each junction must run after the junction that yields its source-stage
+    steps = [sorted((j for step in steps for j in step), key=distance)]
     results: Dict[str, Any] = source_stages.copy()
     errata: Dict[str, List[Error]] = {s: source_stages[s].errors_sorted for s in source_stages}
     cancel = False
-- 
2.43.0


From 6329fc97b192400a3993ed78b9e6854ac44cd1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 056/138] fix: Compiler calls attribute visitors only once for
 each attribute

---
 DHParser/compile.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index e298bc7..9f2bccc 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -313,8 +313,6 @@ class Compiler:
                     if nd is not None and nd.name != EMPTY_PTYPE:
                         result.append(nd)
                 node.result = tuple(result)
-        if self.has_attribute_visitors:
-            self.visit_attributes(node)
         return node
 
     def find_compilation_method(self, node: Node) -> CompileMethod:
-- 
2.43.0


From 75baae766d3ac949801f1a96810152caae027daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 057/138] fix: Compiler does not swallow AttributeErrors raised
 inside of attribute visitors

---
 DHParser/compile.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index 9f2bccc..d5e095b 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -279,11 +279,9 @@ class Compiler:
         if node.has_attr():
             self.path.append(node)
             for attribute, value in tuple(node.attr.items()):
-                try:
-                    attribute_visitor = self.__getattribute__(self.attr_visitor_name(attribute))
+                attribute_visitor = getattr(self, self.attr_visitor_name(attribute), None)
+                if attribute_visitor is not None:
                     attribute_visitor(node, value)
-                except AttributeError:
-                    pass
             self.path.pop()
 
     def fallback_compiler(self, node: Node) -> Any:
-- 
2.43.0


From a755b307c86c963e48dcda755121f529a9d85f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:04 +0000
Subject: [PATCH 058/138] fix: messages of a failed preprocessing carry line
 and column and are sorted

---
 DHParser/compile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index d5e095b..0d51ba1 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -46,7 +46,7 @@ from DHParser.nodetree import Node, RootNode, EMPTY_PTYPE, Path
 from DHParser.transform import TransformerFunc
 from DHParser.parse import ParserCallable, Parser
 from DHParser.error import is_error, is_fatal, Error, FATAL, CANCELED, \
-    TREE_PROCESSING_CRASH, COMPILER_CRASH, AST_TRANSFORM_CRASH, has_errors
+    TREE_PROCESSING_CRASH, COMPILER_CRASH, AST_TRANSFORM_CRASH, has_errors, add_source_locations
 from DHParser.log import log_parsing_history, log_ST, is_logging
 from DHParser.toolkit import load_if_file, is_filename, re, TypeAlias, \
     deprecated, DHPARSER_FILES, CancelQuery
@@ -497,6 +497,8 @@ def compile_source(source: str,
         _, source_text, source_mapping, errors = preprocessor(original_text, source_name)
 
     if has_errors(errors, FATAL):
+        add_source_locations(errors, source_mapping)
+        errors = sorted(errors, key=lambda err: err.pos)
         return CompilationResult(None, errors, None)
 
     # parsing
-- 
2.43.0


From f96c2b5a5d70985942dee7c46439d65b50666b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:35 +0000
Subject: [PATCH 059/138] fix: filters of a table-entry are effective for the
 first node with that name, too

---
 DHParser/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index eee6236..d903bba 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -441,7 +441,8 @@ def traverse(tree: Node,
             all_filters = filters + more_filters
             if BLOCK_CHILDREN in all_filters:
                 all_filters = [BLOCK_CHILDREN]
-            cache[key] = (all_filters, sequence)
+            filters = all_filters
+            cache[key] = (filters, sequence)
 
         children = node._children
         for filter in filters:
-- 
2.43.0


From 8a1491a62e6cf6a2abd4fe48493eb19a42e15da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:35 +0000
Subject: [PATCH 060/138] fix: has_ancestor does not consider the node itself
 as its ancestor

---
 DHParser/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index d903bba..95064e8 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -831,7 +831,7 @@ def has_ancestor(path: Path,
     else:
         trl = path
     if generations <= 0:
-        return any(nd.name in name_set for nd in trl)
+        return any(nd.name in name_set for nd in trl[:-1])
     for i in range(2, min(generations + 2, len(trl) + 1)):
         if trl[-i].name in name_set:
             return True
-- 
2.43.0


From 77f5a753c64393944cc1efaef7577958209ee95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:35 +0000
Subject: [PATCH 061/138] fix: replace_or_reduce evaluates its condition on the
 child

---
 DHParser/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 95064e8..325cc0c 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -1076,7 +1076,7 @@ def replace_or_reduce(path: Path, condition: CondFunc = is_named):
     node = path[-1]
     if len(node._children) == 1:
         child = node._children[0]
-        cond = condition(path)
+        cond = condition(path + [child])
         if cond:
             _replace_by(node, child, path[0])
         elif cond is not None:
-- 
2.43.0


From ff4b2ea4e23d56a2192d4f6eb1f996493c3f9597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:35 +0000
Subject: [PATCH 062/138] fix: collapse_children_if applies the merge_rule on
 all levels

---
 DHParser/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 325cc0c..117472d 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -1262,7 +1262,7 @@ def collapse_children_if(path: Path,
     for child in node._children:
         if condition(path + [child]):
             if child._children:
-                collapse_children_if(path + [child], condition, target_name)
+                collapse_children_if(path + [child], condition, target_name, merge_rule)
                 for c in child._children:
                     if condition(path + [child, c]):
                         package.append(c)
-- 
2.43.0


From 58adf8ffae3ac3e45e85c0c970cf186be465a521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:35 +0000
Subject: [PATCH 063/138] fix: move_fringes does not drop neighbours that
 cannot be merged

---
 DHParser/transform.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 117472d..a4d48e1 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -1613,14 +1613,14 @@ def move_fringes(path: Path, condition: CondFunc, *, side:str = "both", merge: b
             if len(before) + len(prevN) > 1:
                 target = before[-1] if before else prevN[0]
                 if merge_results(target, prevN + before, path[0]):
-                    before = (target,)
-            before = before or prevN
+                    prevN, before = (), (target,)
+            before = prevN + before
 
             if len(after) + len(nextN) > 1:
                 target = after[0] if after else nextN[-1]
                 if merge_results(target, after + nextN, path[0]):
-                    after = (target,)
-            after = after or nextN
+                    after, nextN = (target,), ()
+            after = after + nextN
 
         parent._set_result(parent_children[:a + 1] + before + (node,) + after + parent_children[b:])
 
-- 
2.43.0


From 16451272131eb5f4ac21d3ded899471e8034ad8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:35 +0000
Subject: [PATCH 064/138] fix: move_fringes with side='right' moves the
 children if all of them fulfill the condition

---
 DHParser/transform.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index a4d48e1..78943fc 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -1577,14 +1577,12 @@ def move_fringes(path: Path, condition: CondFunc, *, side:str = "both", merge: b
 
     a, b = 0, len(children)
     while a < b:
-        if condition(path + [children[a]]):
+        if side != "right" and condition(path + [children[a]]):
             a += 1
-        elif condition(path + [children[b - 1]]):
+        elif side != "left" and condition(path + [children[b - 1]]):
             b -= 1
         else:
             break
-    if side == "left":  b = len(children)
-    elif side == "right":  a = 0
     before = children[:a]
     after = children[b:]
     children = children[a:b]
-- 
2.43.0


From faa3c62622251c840baa8ea1d3fa42bed4ad4ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:35 +0000
Subject: [PATCH 065/138] fix: name_matches and content_matches match the
 complete string

---
 DHParser/transform.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 78943fc..8d26948 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -760,9 +760,7 @@ def name_matches(path: Path, regexp: str) -> bool:
     Returns true, if the node's name matches the regular
     expression `regexp` completely. For example, ':.*' matches all anonymous nodes.
     """
-    if not regexp.endswith('$'):
-        regexp = f"(?:{regexp})$"
-    return bool(re.match(regexp, path[-1].name))
+    return bool(re.fullmatch(regexp, path[-1].name))
 
 
 @transformation_factory
@@ -773,9 +771,7 @@ def content_matches(path: Path, regexp: str) -> bool:
     In contrast to ``re.match`` the regular expression must match the complete
     string and not just the beginning of the string to succeed!
     """
-    if not regexp.endswith('$'):
-        regexp = f"(?:{regexp})$"
-    return bool(re.match(regexp, path[-1].content))
+    return bool(re.fullmatch(regexp, path[-1].content))
 
 
 @transformation_factory
-- 
2.43.0


From 9ba4b5d1c034f858aa48dadc2432f6528fda83ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:35 +0000
Subject: [PATCH 066/138] fix: merge_adjacent and merge_connected decide what
 to swallow before renaming the merged node

---
 DHParser/transform.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 8d26948..41ff973 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -1411,11 +1411,13 @@ def merge_adjacent(path: Path,
                 if i > k:
                     adjacent = children[k:i]
                     head = adjacent[0]
-                    if swallow is not None and swallow([head]):
+                    swallow_head = swallow is not None and swallow([head])
+                    result = fuse(adjacent, swallow)
+                    if swallow_head:
                         head = Node(preferred_name or head.name, '').with_pos(head._pos)
                     elif preferred_name and len(adjacent) > 1:
                         head.name = preferred_name
-                    head.result = fuse(adjacent, swallow)
+                    head.result = result
                     update_attr_unless(head, adjacent[1:], path[0], swallow)
                     new_result.append(head)
             else:
@@ -1470,11 +1472,13 @@ def merge_connected(path: Path, content: CondFunc, delimiter: CondFunc,
                 if i > k:
                     adjacent = children[k:i]
                     head = adjacent[0]
-                    if swallow is not None and swallow([head]):
+                    swallow_head = swallow is not None and swallow([head])
+                    result = fuse(adjacent, swallow)
+                    if swallow_head:
                         head = Node(content_name, '').with_pos(head._pos)
                     elif content_name:
                         head.name = content_name
-                    head.result = fuse(adjacent, swallow)  # reduce(operator.add, (nd.result for nd in adjacent), initial)
+                    head.result = result
                     update_attr_unless(head, adjacent[1:], path[0], swallow)
                     new_result.append(head)
             else:
-- 
2.43.0


From dc1b1ab4f9ceafd2f72fa1bb916e0439c0f63f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:35 +0000
Subject: [PATCH 067/138] fix: merge_connected keeps the name of a swallowed
 first node if no name is given

---
 DHParser/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 41ff973..80d39cf 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -1475,7 +1475,7 @@ def merge_connected(path: Path, content: CondFunc, delimiter: CondFunc,
                     swallow_head = swallow is not None and swallow([head])
                     result = fuse(adjacent, swallow)
                     if swallow_head:
-                        head = Node(content_name, '').with_pos(head._pos)
+                        head = Node(content_name or head.name, '').with_pos(head._pos)
                     elif content_name:
                         head.name = content_name
                     head.result = result
-- 
2.43.0


From b5b4c14dd4082070632368c9201317e8b89aabc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:23 +0000
Subject: [PATCH 068/138] fix: post-processors of a transformation table can be
 given as a tuple

---
 DHParser/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 80d39cf..482e0be 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -435,7 +435,7 @@ def traverse(tree: Node,
             filters, pre = split_filter(table.get('<', []))
             assert BLOCK_CHILDREN not in filters
             more_filters, main = split_filter(table.get(key, table.get('*', [])))
-            post = table.get('>', [])
+            post = list(table.get('>', []))
             assert not any(isinstance(callable, Filter) for callable in post)
             sequence = pre + main + post
             all_filters = filters + more_filters
-- 
2.43.0


From 6bb030ce491ad29dd6b5de067ebb19150381c31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:23 +0000
Subject: [PATCH 069/138] fix: expand_table reports duplicate keys inside of
 tuples as KeyError

---
 DHParser/toolkit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 9ea5f9b..a8d748c 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -1472,7 +1472,7 @@ def expand_table(compact_table: Dict) -> Dict:
         value = compact_table[key]
         for k in smart_list(key):
             if k in expanded_table:
-                raise KeyError('Key "%s" used more than once in compact table!' % key)
+                raise KeyError('Key "%s" used more than once in compact table!' % str(k))
             expanded_table[k] = value
     return expanded_table
 
-- 
2.43.0


From d9934cd77e3eebc0d4f2864406bf8d01006df9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 070/138] fix: a group or repetition may begin with a
 multiplier (ebnf.py)

---
 DHParser/ebnf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 8a000c7..7cb897f 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -451,7 +451,7 @@ class ConfigurableEBNFGrammar(Grammar):
         counted    = countable range | countable TIMES~ multiplier | multiplier TIMES~ §countable
 
         range      = RNG_OPEN~ multiplier [ RNG_DELIM~ multiplier ] RNG_CLOSE~
-        no_range   = !multiplier | &multiplier TIMES   # should that be &(multiplier TIMES)??
+        no_range   = !multiplier | &(multiplier TIMES)
         multiplier = /\d+/~
 
 
@@ -579,7 +579,7 @@ class ConfigurableEBNFGrammar(Grammar):
     argument = Alternative(literal, Series(name, dwsp__))
     parser = Series(Series(Text("@"), dwsp__), name, Series(Text("("), dwsp__), Option(argument),
                     Series(Text(")"), dwsp__), mandatory=3)
-    no_range = Drop(Alternative(NegativeLookahead(multiplier), Series(Lookahead(multiplier), TIMES)))
+    no_range = Drop(Alternative(NegativeLookahead(multiplier), Lookahead(Series(multiplier, TIMES))))
     macro = Series(Series(Text("$"), dwsp__), name, Series(Text("("), dwsp__), no_range, expression,
                    ZeroOrMore(Series(Series(Text(","), dwsp__), no_range, expression)), Series(Text(")"), dwsp__))
     range = Series(RNG_OPEN, dwsp__, multiplier, Option(Series(RNG_DELIM, dwsp__, multiplier)), RNG_CLOSE, dwsp__)
-- 
2.43.0


From 6f7c4987bd3745749ef1f7da796df32dd5a5051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 071/138] fix: a group or repetition may begin with a character
 code like 0x61 (ebnf.py)

---
 DHParser/ebnf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 7cb897f..bb86079 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -451,7 +451,7 @@ class ConfigurableEBNFGrammar(Grammar):
         counted    = countable range | countable TIMES~ multiplier | multiplier TIMES~ §countable
 
         range      = RNG_OPEN~ multiplier [ RNG_DELIM~ multiplier ] RNG_CLOSE~
-        no_range   = !multiplier | &(multiplier TIMES)
+        no_range   = !multiplier | &(multiplier TIMES) | &character
         multiplier = /\d+/~
 
 
@@ -579,7 +579,7 @@ class ConfigurableEBNFGrammar(Grammar):
     argument = Alternative(literal, Series(name, dwsp__))
     parser = Series(Series(Text("@"), dwsp__), name, Series(Text("("), dwsp__), Option(argument),
                     Series(Text(")"), dwsp__), mandatory=3)
-    no_range = Drop(Alternative(NegativeLookahead(multiplier), Lookahead(Series(multiplier, TIMES))))
+    no_range = Drop(Alternative(NegativeLookahead(multiplier), Lookahead(Series(multiplier, TIMES)), Lookahead(character)))
     macro = Series(Series(Text("$"), dwsp__), name, Series(Text("("), dwsp__), no_range, expression,
                    ZeroOrMore(Series(Series(Text(","), dwsp__), no_range, expression)), Series(Text(")"), dwsp__))
     range = Series(RNG_OPEN, dwsp__, multiplier, Option(Series(RNG_DELIM, dwsp__, multiplier)), RNG_CLOSE, dwsp__)
-- 
2.43.0


From 193dd5cadf6709f7055a4058406bc95aa33f900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 072/138] fix: a group or repetition may begin with a
 multiplier (heuristic.py)

---
 DHParser/ebnf_flavors/heuristic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/ebnf_flavors/heuristic.py b/DHParser/ebnf_flavors/heuristic.py
index 1ab926a..bce15f9 100755
--- a/DHParser/ebnf_flavors/heuristic.py
+++ b/DHParser/ebnf_flavors/heuristic.py
@@ -207,7 +207,7 @@ class HeuristicEBNFGrammar(Grammar):
         counted    = countable range | countable :TIMES~ multiplier | multiplier :TIMES~ §countable
 
         range      = RNG_BRACE~ multiplier [ :RNG_DELIM~ multiplier ] ::RNG_BRACE~
-        no_range   = !multiplier | &multiplier :TIMES
+        no_range   = !multiplier | &(multiplier :TIMES)
         multiplier = /\d+/~
 
 
@@ -383,7 +383,7 @@ class HeuristicEBNFGrammar(Grammar):
     argument = Alternative(literal, Series(name, dwsp__))
     parser = Series(Series(Text("@"), dwsp__), name, Series(Text("("), dwsp__), Option(argument),
                     Series(Text(")"), dwsp__))
-    no_range = Drop(Alternative(NegativeLookahead(multiplier), Series(Lookahead(multiplier), Retrieve(TIMES))))
+    no_range = Drop(Alternative(NegativeLookahead(multiplier), Lookahead(Series(multiplier, Retrieve(TIMES)))))
     macro = Series(Series(Text("$"), dwsp__), name, Series(Text("("), dwsp__), no_range, expression,
                    ZeroOrMore(Series(Series(Text(","), dwsp__), no_range, expression)), Series(Text(")"), dwsp__))
     range = Series(RNG_BRACE, dwsp__, multiplier, Option(Series(Retrieve(RNG_DELIM), dwsp__, multiplier)),
-- 
2.43.0


From c714fc4d3b025905868fc2969d1ed0acef8ef8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 073/138] fix: a group or repetition may begin with a character
 code like 0x61 (heuristic.py)

---
 DHParser/ebnf_flavors/heuristic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/ebnf_flavors/heuristic.py b/DHParser/ebnf_flavors/heuristic.py
index bce15f9..2be64ec 100755
--- a/DHParser/ebnf_flavors/heuristic.py
+++ b/DHParser/ebnf_flavors/heuristic.py
@@ -207,7 +207,7 @@ class HeuristicEBNFGrammar(Grammar):
         counted    = countable range | countable :TIMES~ multiplier | multiplier :TIMES~ §countable
 
         range      = RNG_BRACE~ multiplier [ :RNG_DELIM~ multiplier ] ::RNG_BRACE~
-        no_range   = !multiplier | &(multiplier :TIMES)
+        no_range   = !multiplier | &(multiplier :TIMES) | &character
         multiplier = /\d+/~
 
 
@@ -383,7 +383,7 @@ class HeuristicEBNFGrammar(Grammar):
     argument = Alternative(literal, Series(name, dwsp__))
     parser = Series(Series(Text("@"), dwsp__), name, Series(Text("("), dwsp__), Option(argument),
                     Series(Text(")"), dwsp__))
-    no_range = Drop(Alternative(NegativeLookahead(multiplier), Lookahead(Series(multiplier, Retrieve(TIMES)))))
+    no_range = Drop(Alternative(NegativeLookahead(multiplier), Lookahead(Series(multiplier, Retrieve(TIMES))), Lookahead(character)))
     macro = Series(Series(Text("$"), dwsp__), name, Series(Text("("), dwsp__), no_range, expression,
                    ZeroOrMore(Series(Series(Text(","), dwsp__), no_range, expression)), Series(Text(")"), dwsp__))
     range = Series(RNG_BRACE, dwsp__, multiplier, Option(Series(Retrieve(RNG_DELIM), dwsp__, multiplier)),
-- 
2.43.0


From f252cc8896ef018f6de80c3cdfb3d1fe08d2764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:19 +0000
Subject: [PATCH 074/138] fix: literals and backticked texts may contain any
 combination of quotation marks

---
 DHParser/ebnf.py | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index bb86079..df79cfd 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3506,12 +3506,26 @@ class EBNFCompiler(Compiler):
             else self.directives.literalws
         left = self.WSPC_PARSER(force) if 'left' in lws else ''
         right = self.WSPC_PARSER(force) if 'right' in lws else ''
-        # content = escape_ctrl_chars(node.content)
-        content = node.content
+        content = self.unescape_quotes(node.content)
         if (content[:1] + content[-1:]) == "’’":
-            content = '"' + content[1:-1].replace('"', r'\"') + '"'
+            content = '"' + content[1:-1] + '"'
         return content, left, right
 
+    @staticmethod
+    def unescape_quotes(quoted: str) -> str:
+        r"""Replaces the escaped quotation marks, e.g. \" inside a pair of
+        quotation marks by the quotation mark proper. (Any other backslash
+        inside a literal or backticked text is just a backslash.)"""
+        q = quoted[:1]
+        return q + re.sub(r'(?<!\\)((?:\\\\)*)\\' + q, r'\1' + q, quoted[1:-1]) + q
+
+    @staticmethod
+    def str_literal(text: str, q: str = '"') -> str:
+        """Returns the Python-source of a string-literal for `text` that
+        is enclosed by the quotation mark `q`."""
+        s = repr("'\"" + text)[4:-1].replace("\\'", "'")  # only `'` are escaped by repr
+        return q + s.replace(q, '\\' + q) + q
+
     def whitespace_rx(self, ws: str) -> str:
         # TODO: doctests required
         """Returns a regular expression for whitespace, possibly including comments"""
@@ -3565,13 +3579,11 @@ class EBNFCompiler(Compiler):
         if 'literal' in self.directives.optimizations and (left and right):
             q = content[0]
             literal = self.literal_rx(content[1:-1], left, right, escape_braces=True)
-            rxp = ''.join(['fr', q, literal, q])
+            rxp = ''.join(['fr', q, literal.replace(q, '\\' + q), q])
             rxp = wrap_str_literal(rxp, 80, 12 if self.drop_on(DROP_STRINGS) else 7)
-            content = escape_ctrl_chars(content)
-            content = ''.join([q, '\\', content[:-1], '\\', content[-1], q])
-            return f"{self.P['SmartRE']}({rxp}, {content})"
-        content = escape_ctrl_chars(content)
-        center = self.TEXT_PARSER(content, self.drop_on(DROP_STRINGS))
+            return f"{self.P['SmartRE']}({rxp}, {self.str_literal(content, q)})"
+        center = self.TEXT_PARSER(self.str_literal(content[1:-1], content[0]),
+                                  self.drop_on(DROP_STRINGS))
         if left or right:
             args = ", ".join(item for item in (left, center, right) if item)
             return f'{self.P["Series"]}({args})'
@@ -3579,17 +3591,13 @@ class EBNFCompiler(Compiler):
 
 
     def smartRE_plaintext(self, node: Node) -> Tuple[str, str]:
-        pattern = self.text_rx(node.content[1:-1], DROP_BACKTICKED)
+        pattern = self.text_rx(self.unescape_quotes(node.content)[1:-1], DROP_BACKTICKED)
         return pattern.replace('{', '{{').replace('}', '}}'), node.content
 
     def on_plaintext(self, node: Node) -> str:
-        tk = escape_ctrl_chars(node.content)
-        rpl = '"' if tk.find('"') < 0 else "'" if tk.find("'") < 0 else ''
-        if rpl:
-            tk = rpl + tk[1:-1] + rpl
-        else:
-            tk = rpl + tk.replace('"', r'\"')[1:-1] + rpl
-        return self.TEXT_PARSER(tk, self.drop_on(DROP_BACKTICKED))
+        text = self.unescape_quotes(node.content)[1:-1]
+        q = "'" if text.find('"') >= 0 and text.find("'") < 0 else '"'
+        return self.TEXT_PARSER(self.str_literal(text, q), self.drop_on(DROP_BACKTICKED))
 
 
     def smartRE_regexp(self, node: Node) -> Tuple[str, str]:
-- 
2.43.0


From 91f7ff64ac4fbd81b11653f3a5a1ec78cdc0125f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:19 +0000
Subject: [PATCH 075/138] fix: wrap_str_literal does not break f-strings inside
 of braces

---
 DHParser/toolkit.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index a8d748c..454df22 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -707,6 +707,9 @@ def abbreviate_middle(s: str, max_length: int) -> str:
     return s
 
 
+RX_FSTRING_PARTS = re.compile(r'(?:\{\{|\}\}|\{[^{}]*\}|[^{}])*')
+
+
 def wrap_str_literal(s: Union[str, List[str]], column: int = 80, offset: int = 0) -> str:
     r"""Wraps an excessively long string literal over several lines.
     Example::
@@ -750,6 +753,10 @@ def wrap_str_literal(s: Union[str, List[str]], column: int = 80, offset: int = 0
         parts = [s[i: i + column] for i in range(0, len(s), column)]
         for i in range(len(parts) - 1):
             p = parts[i]
+            if 'f' in r.lower():  # don't separate braces that belong together
+                p = RX_FSTRING_PARTS.match(p).group(0)
+                parts[i + 1] = parts[i][len(p):] + parts[i + 1]
+                parts[i] = p
             k = 1
             while k <= len(p) and p[-k] == '\\':
                 k += 1
-- 
2.43.0


From 30bb8ceb7be10408d4264ce7a16655e154fbf15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:19 +0000
Subject: [PATCH 076/138] fix: optimizing a sequence does not add a stray
 closing bracket

---
 DHParser/ebnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index df79cfd..99bc735 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3152,7 +3152,7 @@ class EBNFCompiler(Compiler):
                     else:
                         rxps[i - 1] = rxps[i - 1][:-1]
                     rxps[i] = self.fix_group(node[i], stripped_re)
-                    if this_group or i < len(rxps) - 1:  rxps[i] += ')'
+                    if this_group:  rxps[i] += ')'
                 last_group, last_re = this_group, stripped_re
         expr = ''.join(rxps)
         if get_regex_group(expr, expect_group=False) == ('', ''):
-- 
2.43.0


From 55fa89191a8b982501229cfc3b1dfd63242e00cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:19 +0000
Subject: [PATCH 077/138] fix: a failed parser is reported even if the text
 consists of nothing but whitespace

---
 DHParser/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index fca034d..38d74be 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2068,9 +2068,9 @@ class Grammar:
             # lookaheads etc.
 
             if location < L and (complete_match is True
-                    or (complete_match is not False and
+                    or (complete_match is not False and (result is None or
                         re.fullmatch(getattr(self, complete_match),
-                                     self.text__[location:]) is None)):
+                                     self.text__[location:]) is None))):
                 rest = self.document__[location:]
                 fwd = rest.find("\n") + 1 or len(rest)
                 stop, skip, location = location, rest[:fwd], location + fwd
-- 
2.43.0


From 46795cd5b2a62ab7432be745caaff697beb3c806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 078/138] fix: hex codes of characters that are special in
 regular expressions stand for these characters

---
 DHParser/ebnf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 99bc735..92e2898 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3648,7 +3648,7 @@ class EBNFCompiler(Compiler):
     def on_char_range(self, node) -> str:
         re_str, _ = self.smartRE_char_range(node)
         re_str = re_str[re_str.find('['): -1]
-        return f"{self.P['RegExp']}('{re_str}')"
+        return f"{self.P['RegExp']}(r'{re_str}')"
 
 
     def on_range_chain(self, node) -> Node:
@@ -3689,7 +3689,7 @@ class EBNFCompiler(Compiler):
         return pattern.replace('{', '{{').replace('}', '}}'), f'/{arg}/'
 
     def on_character(self, node: Node) -> str:
-        return f"{self.P['RegExp']}('[{self.extract_character(node)}]')"
+        return f"{self.P['RegExp']}(r'[{self.extract_character(node)}]')"
         # return "RegExp('%s')" % self.extract_character(node)
 
 
-- 
2.43.0


From eec1ec61b5aa8b526c423c8cdf361d62fe39d649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:23 +0000
Subject: [PATCH 079/138] fix: optimizing a literal followed by whitespace does
 not capture the literal twice

---
 DHParser/ebnf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 92e2898..8615380 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3136,7 +3136,9 @@ class EBNFCompiler(Compiler):
                                         'range_chain') for child in node.children)
         for nd in node.children:
             rxp, repr_str = self.compile(nd, self.find_smartRE_method)
-            if undrop and nd.name != "whitespace" and rxp[:3] == "(?:":  rxp = "(" + rxp[3:]
+            if undrop and nd.name != "whitespace" and rxp[:3] == "(?:" \
+                    and not RX_NAMED_GROUPS.search(rxp):
+                rxp = "(" + rxp[3:]
             rxps.append(rxp)
             rep_strs.append(repr_str)
         if self.directives.reduction >= REDUCTION['merge_leaves'] \
-- 
2.43.0


From 397ada9e1dd123a0b83cffcb97cc39b7a3c3750a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:11 +0000
Subject: [PATCH 080/138] fix: AnyChar-parsers drop their content when they are
 told to

---
 DHParser/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 38d74be..c832df4 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2530,6 +2530,8 @@ class AnyChar(Unparameterized):
         L = len(text)
         if location < L:
             location_ = location + 1
+            if self.drop_content:
+                return EMPTY_NODE, location_
             return Node(self.node_name, text[location:location_], True), location_
         else:
             return None, location
-- 
2.43.0


From 61d82d5e3e6941c2a5b44548b5483b7077770037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:11 +0000
Subject: [PATCH 081/138] fix: dropping one item does not drop the implicit
 whitespace everywhere else

---
 DHParser/parse.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index c832df4..066fd73 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1323,10 +1323,12 @@ def reset_parser(parser):
 
 
 def _propagate_drop(p: Parser):
-    """propagates the drop_content flag to all unnamed children."""
+    """propagates the drop_content flag to all unnamed children.
+    Whitespace-parsers are left out, because the same Whitespace-parser
+    can also be used in other places where its content is not dropped."""
     assert p.drop_content
     for c in p.sub_parsers:
-        if not c.pname:
+        if not c.pname and not isinstance(c, Whitespace):
             c.drop_content = True
             _propagate_drop(c)
 
-- 
2.43.0


From bfe10c8a532686193a0a41ebd04987b676d484ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:11 +0000
Subject: [PATCH 082/138] fix: flags in whitespace- and comment-regexes survive
 being merged

---
 DHParser/parse.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 066fd73..2e546c7 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1193,6 +1193,17 @@ def has_non_autocaptured_symbols(ptrail: ParserTrail) -> Optional[bool]:
 RX_NEVER_MATCH = LazyRE(NEVER_MATCH_PATTERN)
 
 
+def _localize_flags(regex: str) -> str:
+    """Turns global flags at the beginning of a regular expression, e.g. "(?i)a",
+    into local flags, e.g. "(?i:a)", so that the regular expression can become
+    a part of another regular expression."""
+    m = re.match(r'\(\?([aimsux]+)\)', regex)
+    if not m:
+        return regex
+    flags = m.group(1)
+    return f"(?{flags}:{regex[m.end():]}" + ("\n)" if 'x' in flags else ")")
+
+
 def mixin_comment(whitespace: str, comment: str, always_match: bool = True) -> str:
     r"""
     Returns a regular expression pattern that merges comment and whitespace
@@ -1219,6 +1230,8 @@ def mixin_comment(whitespace: str, comment: str, always_match: bool = True) -> s
         >>> rx.match('   # comment').group(0)
         '   # '
     """
+    whitespace = _localize_flags(whitespace)
+    comment = _localize_flags(comment)
     if re.match(whitespace, ""):
         whitespace = f'(?:{whitespace})'
     else:
-- 
2.43.0


From d4c7af0d51cb9631516e1e386280a78fefdafd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:31 +0000
Subject: [PATCH 083/138] fix: optimized literals respect @ignorecase

---
 DHParser/ebnf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 8615380..ed59353 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3581,6 +3581,8 @@ class EBNFCompiler(Compiler):
         if 'literal' in self.directives.optimizations and (left and right):
             q = content[0]
             literal = self.literal_rx(content[1:-1], left, right, escape_braces=True)
+            if 'i' in self.re_flags:
+                literal = '(?i)' + literal.replace('(?P<:Text>', '(?P<:IgnoreCase>')
             rxp = ''.join(['fr', q, literal.replace(q, '\\' + q), q])
             rxp = wrap_str_literal(rxp, 80, 12 if self.drop_on(DROP_STRINGS) else 7)
             return f"{self.P['SmartRE']}({rxp}, {self.str_literal(content, q)})"
-- 
2.43.0


From ddd88a8c3d1b33439f1ceb9caad94a68359da184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:31 +0000
Subject: [PATCH 084/138] fix: character-ranges and characters respect
 @ignorecase and @drop

---
 DHParser/ebnf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index ed59353..5b5c87d 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3486,6 +3486,12 @@ class EBNFCompiler(Compiler):
             else f'{self.P[REClass]}({pattern})'
 
 
+    def CHAR_PARSER(self, re_str):
+        flags = '(?i)' if 'i' in self.re_flags else ''
+        parser = f"{self.P['RegExp']}(r'{flags}{re_str}')"
+        return f"{self.P['Drop']}({parser})" if self.drop_on(DROP_REGEXP) else parser
+
+
     def WSPC_PARSER(self, force_drop=False):
         if ((force_drop or DROP_WSPC in self.directives.drop
              or DROP_NO_COMMENTS in self.directives.drop)
@@ -3652,7 +3658,7 @@ class EBNFCompiler(Compiler):
     def on_char_range(self, node) -> str:
         re_str, _ = self.smartRE_char_range(node)
         re_str = re_str[re_str.find('['): -1]
-        return f"{self.P['RegExp']}(r'{re_str}')"
+        return self.CHAR_PARSER(re_str)
 
 
     def on_range_chain(self, node) -> Node:
@@ -3693,7 +3699,7 @@ class EBNFCompiler(Compiler):
         return pattern.replace('{', '{{').replace('}', '}}'), f'/{arg}/'
 
     def on_character(self, node: Node) -> str:
-        return f"{self.P['RegExp']}(r'[{self.extract_character(node)}]')"
+        return self.CHAR_PARSER(f'[{self.extract_character(node)}]')
         # return "RegExp('%s')" % self.extract_character(node)
 
 
-- 
2.43.0


From 4a741293fa824955cfd2ab60f5f1f66094e5fd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:11 +0000
Subject: [PATCH 085/138] fix: recursive symbols can serve as skip- and
 resume-rules

---
 DHParser/parse.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 2e546c7..d2cd027 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1331,6 +1331,12 @@ def cancel_proxy(self: Parser, location: cython.int) -> Tuple[Optional[Node], cy
 RESERVED_PARSER_NAMES = ('root__', 'dwsp__', 'wsp__', 'comment__', 'root_parser__', 'ff_parser__')
 
 
+def _pname(parser: Parser) -> str:
+    """Returns the name of the parser or, in case of (recursive) symbols, the
+    name of the parser that the Forward-parser delegates to."""
+    return parser.parser.pname if isinstance(parser, Forward) else parser.pname
+
+
 def reset_parser(parser):
     return parser.reset()
 
@@ -1824,7 +1830,7 @@ class Grammar:
         for l in resume_lists:
             for i in range(len(l)):
                 if isinstance(l[i], Parser):
-                    p = self[l[i].pname]  # deep-copy and initialize with grammar-object
+                    p = self[_pname(l[i])]  # deep-copy and initialize with grammar-object
                     l[i] = p
                     # must always be reset, because it need not be connected to the start-parser
                     self.resume_parsers__.add(p)
@@ -1865,7 +1871,7 @@ class Grammar:
         except KeyError:
             parser_template = getattr(self.__class__, key, None)
             if parser_template:
-                if key != parser_template.pname:
+                if key != _pname(parser_template):
                     raise AttributeError(
                         f'Illegal parser-name "{key}" for grammar {self.__class__.__name__}!')
                 # add parser to grammar-object on the fly...
-- 
2.43.0


From 14dd6291d2a2367981072d22880808ba68513b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:35 +0000
Subject: [PATCH 086/138] fix: optimizations do not drop any-character-parsers
 together with regexps

---
 DHParser/ebnf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 5b5c87d..68b579f 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3705,8 +3705,7 @@ class EBNFCompiler(Compiler):
 
     def smartRE_any_char(self, node: Node) -> Tuple[str, str]:
         arg = r'.|\n'
-        pattern = f'(?:{arg})' if self.drop_on(DROP_REGEXP) else f'(?P<:AnyChar>{arg})'
-        return pattern, '/./'
+        return f'(?P<:AnyChar>{arg})', '/./'
 
     def on_any_char(self, node: Node) -> str:
         return f'{self.P["AnyChar"]}()'
-- 
2.43.0


From 75ae8910450fb0d401115439d66c4f44deb5a798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:43 +0000
Subject: [PATCH 087/138] fix: removing a drop clause leaves closing brackets
 inside of the expression alone

---
 DHParser/ebnf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 68b579f..08cac71 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -2841,7 +2841,8 @@ class EBNFCompiler(Compiler):
                      if arg not in EBNFCompiler.COMMENT_OR_WHITESPACE]) == 1
             and all((arg.startswith(drop_regexp) or arg.startswith(drop_text)
                      or arg in EBNFCompiler.COMMENT_OR_WHITESPACE) for arg in arguments)):
-            arguments = [arg.replace(drop_clause, '').replace('))', ')') for arg in arguments]
+            arguments = [arg[len(drop_clause):-1] if arg.startswith(drop_clause) else arg
+                         for arg in arguments]
         return parser_class + '(' + ', '.join(arguments) + ')'
 
 
-- 
2.43.0


From a2f5a2cdb604db7aba0d542f8171166abd71c7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:45 +0000
Subject: [PATCH 088/138] fix: optimized plain text keeps a backslash before a
 slash

---
 DHParser/ebnf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 08cac71..f6be03a 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3552,10 +3552,12 @@ class EBNFCompiler(Compiler):
         return ""
 
     def text_rx(self, content: str, drop_category):
+        # check_rx() turns "\/" into "/", therefore slashes must be escaped
+        escaped = re.escape(content).replace('/', r'\/')
         if self.drop_on(drop_category):
-            center_rx = f'(?:{re.escape(content)})'
+            center_rx = f'(?:{escaped})'
         else:
-            center_rx = f'(?P<{TOKEN_PTYPE}>{re.escape(content)})'
+            center_rx = f'(?P<{TOKEN_PTYPE}>{escaped})'
         return center_rx
 
     def literal_rx(self, content: str, left: str, right: str, escape_braces=False) -> str:
-- 
2.43.0


From 65fe6329015e6533c2a2db5bc240f78b356a0830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:55 +0000
Subject: [PATCH 089/138] fix: every expression in a skip- or resume-directive
 becomes a rule of its own

---
 DHParser/ebnf.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index f6be03a..da537e9 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -1902,14 +1902,13 @@ class EBNFCompiler(Compiler):
             return unrepr(referred_symbol)
         else:
             # create a parser-based search rule
-            symbol = node.children[0].content.split('_')[0]
+            symbol = node.children[0].content.rsplit('_', 1)[0]
             stub = f"{symbol}_{kind}_"
             L = len(stub)
             nr = 1
             for rule in self.rules.keys():
-                if rule[:L] == stub:
-                    i = int(rule[L:].strip('_'))
-                    if i > nr:  nr = i + 1
+                if re.fullmatch(r'\d+__', rule[L:]) and rule[:L] == stub:
+                    nr = max(nr, int(rule[L:-2]) + 1)
             rule = stub + str(nr) + '__'
             self.current_symbols = [node]
             self.rules[rule] = self.current_symbols
-- 
2.43.0


From b2af96e8d733f7c214461bcdaa84f1e931408a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:55 +0000
Subject: [PATCH 090/138] fix: a bracketed symbol can be a skip- or resume-rule

---
 DHParser/ebnf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index da537e9..c258179 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -1913,7 +1913,8 @@ class EBNFCompiler(Compiler):
             self.current_symbols = [node]
             self.rules[rule] = self.current_symbols
             defn = self.compile(nd)
-            assert defn.find("(") >= 0  # synonyms are impossible here
+            if defn.find("(") < 0:
+                defn = f'{self.P["Synonym"]}({defn})'
             self.definitions[rule] = defn
             self.referred_otherwise.add(rule)
             return unrepr(rule)
-- 
2.43.0


From b854c2bf334f079dcf9643f33115f9f49574bea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:11 +0000
Subject: [PATCH 091/138] fix: a recursive symbol that failed with an error
 does not fail silently the next time

---
 DHParser/parse.py | 198 +++++++++++++++++++++++++---------------------
 1 file changed, 106 insertions(+), 92 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index d2cd027..e1db5f9 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -5261,54 +5261,61 @@ class Forward(UnaryParser):
             grammar.suspend_memoization__ = False
             history_pointer = len(grammar.history__)
 
-            result = self.parser(location)
-
-            if result[0] is not None:
-                # keep calling the (potentially left-)recursive parser and increase
-                # the recursion depth by 1 for each call as long as the length of
-                # the match increases.
-                last_history_state = grammar.history__[history_pointer:len(grammar.history__)]
-                depth = 1
-                while True:
-                    self.recursion_counter[location] = depth
-                    grammar.suspend_memoization__ = False
-                    rb_stack_size = len(grammar.rollback__)
-                    grammar.history__ = grammar.history__[:history_pointer]
-                    # reduplication of error messages will be caught by nodetree.RootNode.add_error()
-                    # saving and restoring the errors-messages state on each iteration presupposes
-                    # that error messages will be recreated every time, which, however, does not
-                    # happen because of memoization. (This is a downside of global error-reporting
-                    # in contrast to attaching error-messages locally to the node where they
-                    # occurred. Big topic...)
-                    # don't carry error/resumption-messages over to the next iteration
-                    # grammar.most_recent_error__ = None
-                    next_result = self.parser(location)
-
-                    # discard next_result if it is not the longest match and return
-                    if next_result[1] <= result[1]:  # also true, if no match
-                        # Since the result of the last parser call (``next_result``) is discarded,
-                        # any variables captured by this call should be "rolled back", too.
-                        while len(grammar.rollback__) > rb_stack_size:
-                            _, rb_func = grammar.rollback__.pop()
-                            rb_func()
-                            grammar.last_rb__loc__ = grammar.rollback__[-1][0] \
-                                if grammar.rollback__ else -2
-                        # Finally, overwrite the discarded result in the last history record with
-                        # the accepted result, i.e. the longest match.
-                        # TODO: Move this to trace.py, somehow... and make it less confusing
-                        #       that the result is not the last but the longest match...
-                        grammar.history__ = grammar.history__[:history_pointer] + last_history_state
-                        # record = grammar.history__[-1]
-                        # if record.call_stack[-1] == (self.parser.pname, location):
-                        #     record.text = result[1]
-                        #     delta = len(text) - len(result[1])
-                        #     assert record.node.name != ':None'
-                        #     record.node.result = text[:delta]
-                        break
+            try:
+                result = self.parser(location)
 
+                if result[0] is not None:
+                    # keep calling the (potentially left-)recursive parser and increase
+                    # the recursion depth by 1 for each call as long as the length of
+                    # the match increases.
                     last_history_state = grammar.history__[history_pointer:len(grammar.history__)]
-                    result = next_result
-                    depth += 1
+                    depth = 1
+                    while True:
+                        self.recursion_counter[location] = depth
+                        grammar.suspend_memoization__ = False
+                        rb_stack_size = len(grammar.rollback__)
+                        grammar.history__ = grammar.history__[:history_pointer]
+                        # reduplication of error messages will be caught by nodetree.RootNode.add_error()
+                        # saving and restoring the errors-messages state on each iteration presupposes
+                        # that error messages will be recreated every time, which, however, does not
+                        # happen because of memoization. (This is a downside of global error-reporting
+                        # in contrast to attaching error-messages locally to the node where they
+                        # occurred. Big topic...)
+                        # don't carry error/resumption-messages over to the next iteration
+                        # grammar.most_recent_error__ = None
+                        next_result = self.parser(location)
+
+                        # discard next_result if it is not the longest match and return
+                        if next_result[1] <= result[1]:  # also true, if no match
+                            # Since the result of the last parser call (``next_result``) is discarded,
+                            # any variables captured by this call should be "rolled back", too.
+                            while len(grammar.rollback__) > rb_stack_size:
+                                _, rb_func = grammar.rollback__.pop()
+                                rb_func()
+                                grammar.last_rb__loc__ = grammar.rollback__[-1][0] \
+                                    if grammar.rollback__ else -2
+                            # Finally, overwrite the discarded result in the last history record with
+                            # the accepted result, i.e. the longest match.
+                            # TODO: Move this to trace.py, somehow... and make it less confusing
+                            #       that the result is not the last but the longest match...
+                            grammar.history__ = grammar.history__[:history_pointer] + last_history_state
+                            # record = grammar.history__[-1]
+                            # if record.call_stack[-1] == (self.parser.pname, location):
+                            #     record.text = result[1]
+                            #     delta = len(text) - len(result[1])
+                            #     assert record.node.name != ':None'
+                            #     record.node.result = text[:delta]
+                            break
+
+                        last_history_state = grammar.history__[history_pointer:len(grammar.history__)]
+                        result = next_result
+                        depth += 1
+            except ParserError:
+                # leave no traces, so that the error will be raised again, in case the
+                # parser is called again at the same location
+                del self.recursion_counter[location]
+                grammar.suspend_memoization__ = save_suspend_memoization
+                raise
             # grammar.suspend_memoization__ = save_suspend_memoization \
             #     or location <= (grammar.last_rb__loc__ + int(text._len == result[1]._len))
             grammar.suspend_memoization__ = save_suspend_memoization  #  = is_context_sensitive(self.parser)
@@ -5436,54 +5443,61 @@ class Ref(LateBindingUnary):
             grammar.suspend_memoization__ = False
             history_pointer = len(grammar.history__)
 
-            result = self.parser(location)
-
-            if result[0] is not None:
-                # keep calling the (potentially left-)recursive parser and increase
-                # the recursion depth by 1 for each call as long as the length of
-                # the match increases.
-                last_history_state = grammar.history__[history_pointer:len(grammar.history__)]
-                depth = 1
-                while True:
-                    self.recursion_counter[location] = depth
-                    grammar.suspend_memoization__ = False
-                    rb_stack_size = len(grammar.rollback__)
-                    grammar.history__ = grammar.history__[:history_pointer]
-                    # reduplication of error messages will be caught by nodetree.RootNode.add_error()
-                    # saving and restoring the errors-messages state on each iteration presupposes
-                    # that error messages will be recreated every time, which, however, does not
-                    # happen because of memoization. (This is a downside of global error-reporting
-                    # in contrast to attaching error-messages locally to the node where they
-                    # occurred. Big topic...)
-                    # don't carry error/resumption-messages over to the next iteration
-                    # grammar.most_recent_error__ = None
-                    next_result = self.parser(location)
-
-                    # discard next_result if it is not the longest match and return
-                    if next_result[1] <= result[1]:  # also true, if no match
-                        # Since the result of the last parser call (``next_result``) is discarded,
-                        # any variables captured by this call should be "rolled back", too.
-                        while len(grammar.rollback__) > rb_stack_size:
-                            _, rb_func = grammar.rollback__.pop()
-                            rb_func()
-                            grammar.last_rb__loc__ = grammar.rollback__[-1][0] \
-                                if grammar.rollback__ else -2
-                        # Finally, overwrite the discarded result in the last history record with
-                        # the accepted result, i.e. the longest match.
-                        # TODO: Move this to trace.py, somehow... and make it less confusing
-                        #       that the result is not the last but the longest match...
-                        grammar.history__ = grammar.history__[:history_pointer] + last_history_state
-                        # record = grammar.history__[-1]
-                        # if record.call_stack[-1] == (self.parser.pname, location):
-                        #     record.text = result[1]
-                        #     delta = len(text) - len(result[1])
-                        #     assert record.node.name != ':None'
-                        #     record.node.result = text[:delta]
-                        break
+            try:
+                result = self.parser(location)
 
+                if result[0] is not None:
+                    # keep calling the (potentially left-)recursive parser and increase
+                    # the recursion depth by 1 for each call as long as the length of
+                    # the match increases.
                     last_history_state = grammar.history__[history_pointer:len(grammar.history__)]
-                    result = next_result
-                    depth += 1
+                    depth = 1
+                    while True:
+                        self.recursion_counter[location] = depth
+                        grammar.suspend_memoization__ = False
+                        rb_stack_size = len(grammar.rollback__)
+                        grammar.history__ = grammar.history__[:history_pointer]
+                        # reduplication of error messages will be caught by nodetree.RootNode.add_error()
+                        # saving and restoring the errors-messages state on each iteration presupposes
+                        # that error messages will be recreated every time, which, however, does not
+                        # happen because of memoization. (This is a downside of global error-reporting
+                        # in contrast to attaching error-messages locally to the node where they
+                        # occurred. Big topic...)
+                        # don't carry error/resumption-messages over to the next iteration
+                        # grammar.most_recent_error__ = None
+                        next_result = self.parser(location)
+
+                        # discard next_result if it is not the longest match and return
+                        if next_result[1] <= result[1]:  # also true, if no match
+                            # Since the result of the last parser call (``next_result``) is discarded,
+                            # any variables captured by this call should be "rolled back", too.
+                            while len(grammar.rollback__) > rb_stack_size:
+                                _, rb_func = grammar.rollback__.pop()
+                                rb_func()
+                                grammar.last_rb__loc__ = grammar.rollback__[-1][0] \
+                                    if grammar.rollback__ else -2
+                            # Finally, overwrite the discarded result in the last history record with
+                            # the accepted result, i.e. the longest match.
+                            # TODO: Move this to trace.py, somehow... and make it less confusing
+                            #       that the result is not the last but the longest match...
+                            grammar.history__ = grammar.history__[:history_pointer] + last_history_state
+                            # record = grammar.history__[-1]
+                            # if record.call_stack[-1] == (self.parser.pname, location):
+                            #     record.text = result[1]
+                            #     delta = len(text) - len(result[1])
+                            #     assert record.node.name != ':None'
+                            #     record.node.result = text[:delta]
+                            break
+
+                        last_history_state = grammar.history__[history_pointer:len(grammar.history__)]
+                        result = next_result
+                        depth += 1
+            except ParserError:
+                # leave no traces, so that the error will be raised again, in case the
+                # parser is called again at the same location
+                del self.recursion_counter[location]
+                grammar.suspend_memoization__ = save_suspend_memoization
+                raise
             # grammar.suspend_memoization__ = save_suspend_memoization \
             #     or location <= (grammar.last_rb__loc__ + int(text._len == result[1]._len))
             grammar.suspend_memoization__ = save_suspend_memoization  #  = is_context_sensitive(self.parser)
-- 
2.43.0


From 78cf7f9d65a09fda827de0c41b941f2f401f5b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:48 +0000
Subject: [PATCH 092/138] fix: lengths of the lists of a source map are all
 compared

---
 DHParser/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index 3d72da5..c9bdb99 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -291,7 +291,7 @@ class SourceMap(NamedTuple):
     __module__ = __name__       # needed for cython compatibility
 
     def validate(self) -> SourceMap:   # actually returns Self
-        if len(self.positions) != len(self.offsets) != len(self.file_names):
+        if not (len(self.positions) == len(self.offsets) == len(self.file_names)):
             raise ValueError("The length of the lists of positions, offsets and file names "
                              "must be equal.")
         if len(self.positions) < 2:
-- 
2.43.0


From 8260a03af8ba59ce0522f302b7cd2d5ae091887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:48 +0000
Subject: [PATCH 093/138] fix: source map does not mix up the positions of
 different files

---
 DHParser/preprocess.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index c9bdb99..94ca67f 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -328,10 +328,13 @@ def source_map(position: int, srcmap: SourceMap) -> SourceLocation:
     i = bisect.bisect_right(srcmap.positions, position)
     if 0 < i < len(srcmap.positions):
         original_name = srcmap.file_names[i - 1]
+        original_pos = position + srcmap.offsets[i - 1]
+        if srcmap.file_names[i] == original_name:
+            next_pos = srcmap.positions[i] + srcmap.offsets[i]
+            if next_pos >= srcmap.positions[i - 1] + srcmap.offsets[i - 1]:
+                original_pos = min(original_pos, next_pos)
         return SourceLocation(
-            original_name,
-            srcmap.originals_dict[original_name],
-            min(position + srcmap.offsets[i - 1], srcmap.positions[i] + srcmap.offsets[i]))
+            original_name, srcmap.originals_dict[original_name], original_pos)
     raise ValueError(f"Position {position} seems is out of range "
                      f"[{srcmap.positions[0]}, {srcmap.positions[-1]}[ "
                      f"or source map ist corrupted.")
-- 
2.43.0


From c6338996adfe8ef847be2240372c6f5104be680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:48 +0000
Subject: [PATCH 094/138] fix: end of a text that ends with a
 preprocessor-token can be mapped

---
 DHParser/preprocess.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index 94ca67f..df2aa76 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -382,9 +382,8 @@ def tokenized_to_original_mapping(tokenized_text: str,
         positions.extend([d + 1, e + 1])
         offsets.extend([o + 1, o])
         i = tokenized_text.find(BEGIN_TOKEN, e + 1)
-    if e + 1 < len(tokenized_text):
-        positions.append(len(tokenized_text) + 1)
-        offsets.append(offsets[-1])
+    positions.append(len(tokenized_text) + 1)
+    offsets.append(offsets[-1])
 
     # specific condition for preprocessor tokens
     assert all(offsets[i] > offsets[i + 1] for i in range(len(offsets) - 2))
-- 
2.43.0


From d6dec82487ce4200b5185e0c8df1a25f1f80cb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:48 +0000
Subject: [PATCH 095/138] fix: an empty source text is not replaced by the
 content of a file

---
 DHParser/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index df2aa76..c9adca5 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -577,7 +577,7 @@ def preprocess_includes(original_text: Optional[str],
     :return: the result of the preprocessing: (original document,
         processed document, source mapping, (possibly empty) list of errors)
     """
-    if not original_text:
+    if original_text is None:
         with open(original_name, 'r', encoding='utf-8') as f:
             original_text = f.read()
     include_map, result = generate_include_map(
-- 
2.43.0


From abc8c22804133feb55ea6936fdeca978286144f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:48 +0000
Subject: [PATCH 096/138] fix: includes after another preprocessor and nested
 preprocessor-chains

---
 DHParser/preprocess.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index c9adca5..2024176 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -196,7 +196,14 @@ def chain_preprocessors(*preprocessors) -> PreprocessorFunc:
     """
     Merges a sequence of preprocessor functions in to a single function.
     """
-    if any(prep is preprocess_includes for prep in preprocessors[1:]):
+    chain = []
+    for prep in preprocessors:
+        if isinstance(prep, functools.partial) and prep.func is _apply_preprocessors:
+            chain.extend(prep.keywords['preprocessors'])
+        else:
+            chain.append(prep)
+    preprocessors = tuple(chain)
+    if any(getattr(prep, 'func', prep) is preprocess_includes for prep in preprocessors[1:]):
         raise ValueError("The preprocessor for include files must be applied first, "
                          "and there can be no more than one preprocessor for includes.")
     return functools.partial(_apply_preprocessors, preprocessors=preprocessors)
-- 
2.43.0


From 4ec80f543fe46de79fbaf447c60aa8d95adad5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:48 +0000
Subject: [PATCH 097/138] fix: circular includes are recognized for any
 spelling of the path

---
 DHParser/preprocess.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index 2024176..217c73b 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -501,9 +501,10 @@ def generate_include_map(original_name: str,
         map = SourceMap(source_name, [0], [0], [source_name], {source_name: source_text})
         result = []
 
-        if source_name in file_names:
+        file_id = os.path.normpath(source_name) if source_name else source_name
+        if file_id in file_names:
             raise ValueError(f'Circular include of {source_name} detected!')
-        file_names.add(source_name)
+        file_names.add(file_id)
 
         dirname = os.path.dirname(source_name)
         original_pointer = 0
@@ -550,7 +551,7 @@ def generate_include_map(original_name: str,
             map.positions.append(map.positions[-1] + len(rest))
             map.offsets.append(original_offset)
             map.file_names.append(source_name)
-        file_names.remove(source_name)
+        file_names.remove(file_id)
         # map.file_offsets = [-offset for offset in map.offsets]  # only for debugging!
         return map, ''.join(result)
 
-- 
2.43.0


From e9cffa83e1a4169fb8c2372832943fd385a6f081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:48 +0000
Subject: [PATCH 098/138] fix: a preprocessor-token is not taken for one with a
 shorter name

---
 DHParser/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index e1db5f9..8395450 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -53,7 +53,7 @@ from DHParser.error import Error, ErrorCode, MANDATORY_CONTINUATION, \
     INFINITE_LOOP_WARNING, REDUNDANT_PARSER_WARNING, PARSER_STOPPED_BEFORE_END_WARNING, \
     has_errors, is_error
 from DHParser.log import CallItem, HistoryRecord
-from DHParser.preprocess import BEGIN_TOKEN, END_TOKEN, RX_TOKEN_NAME, SourceMapFunc
+from DHParser.preprocess import BEGIN_TOKEN, TOKEN_DELIMITER, END_TOKEN, RX_TOKEN_NAME, SourceMapFunc
 from DHParser.stringview import StringView, EMPTY_STRING_VIEW
 from DHParser.nodetree import Node, RootNode, WHITESPACE_PTYPE, \
     KEEP_COMMENTS_PTYPE, TOKEN_PTYPE, MIXED_CONTENT_TEXT_PTYPE, ZOMBIE_TAG, EMPTY_NODE, \
@@ -2609,7 +2609,7 @@ class PreprocessorToken(LeafParser):
                     'BEGIN_TOKEN delimiter as part of their argument. '
                     '(Most likely due to a preprocessor bug!)')
                 return node, location + end
-            if text[1:len(self.pname) + 1] == self.pname:
+            if text[1:len(self.pname) + 2] == self.pname + TOKEN_DELIMITER:
                 if self.drop_content:
                     return EMPTY_NODE, location + end + 1
                 return Node(self.node_name, text[len(self.pname) + 2:end], True), location + end + 1
-- 
2.43.0


From 43007fe01d5f8fce465625dd2455918f19a004af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:02 +0000
Subject: [PATCH 099/138] fix: include reader is shared by all files of an
 include-tree

---
 DHParser/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index 217c73b..e4062cd 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -495,6 +495,7 @@ def generate_include_map(original_name: str,
                          include_reader: IncludeReaderFactory = ReadIncludeClass) \
                          -> Tuple[SourceMap, str]:
     file_names: set = set()
+    read_include = include_reader()
 
     def generate_map(source_name, source_text, find_next) -> Tuple[SourceMap, str]:
         nonlocal file_names
@@ -513,7 +514,6 @@ def generate_include_map(original_name: str,
         last_begin = -1
         begin, length, include_name = find_next(source_text, 0)
         include_name = os.path.join(dirname, include_name)
-        read_include = include_reader()
         while begin >= 0:
             assert begin > last_begin
             source_delta = begin - original_pointer
-- 
2.43.0


From a7ead3b09a763e61024080fb4b75f6eb56695af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:02 +0000
Subject: [PATCH 100/138] fix: text of a file that is left out the second time
 is not lost

---
 DHParser/preprocess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index e4062cd..d70ce5d 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -534,7 +534,8 @@ def generate_include_map(original_name: str,
             map.file_names.extend(inner_map.file_names[:-1])
             map.positions.extend(inner_map.positions[:-1])
             map.offsets.extend(inner_map.offsets[:-1])
-            map.originals_dict.update(inner_map.originals_dict)
+            for name, text in inner_map.originals_dict.items():
+                map.originals_dict.setdefault(name, text)
             result.append(inner_text)
             inner_length = len(inner_text)
             result_pointer += inner_length
-- 
2.43.0


From 272d7eacad7d1aa2f759d970ce221f25cc8d4985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:43 +0000
Subject: [PATCH 101/138] fix: a symbol can be defined as a preprocessor-token

---
 DHParser/parse.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 8395450..5de56a0 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2573,15 +2573,20 @@ class PreprocessorToken(LeafParser):
         assert token and token.isupper()
         assert RX_TOKEN_NAME.match(token)
         super().__init__()
+        self.token = token
         self.pname = token
         if token:
             self.disposable = False
 
     def __deepcopy__(self, memo):
-        duplicate = self.__class__(self.pname)
+        duplicate = self.__class__(self.token)
         copy_parser_base_attrs(self, duplicate)
         return duplicate
 
+    def name(self, pname: str="", disposable: Optional[bool] = None) -> Parser:
+        self.pname = ""  # the name of a parser may differ from that of its token
+        return super().name(pname, disposable)
+
     @cython.locals(end=cython.int)
     def _parse(self, location: cython.int) -> ParsingResult:
         text = self._grammar.document__[location:]
@@ -2602,17 +2607,17 @@ class PreprocessorToken(LeafParser):
                     '(Most likely due to a preprocessor bug!)')
                 return node, location + 2
             elif text.find(BEGIN_TOKEN, 1, end) >= 0:
-                node = Node(self.node_name, text[len(self.pname) + 1:end])
+                node = Node(self.node_name, text[len(self.token) + 1:end])
                 self.grammar.tree__.new_error(
                     node,
                     'Preprocessor-tokens must not be nested or contain '
                     'BEGIN_TOKEN delimiter as part of their argument. '
                     '(Most likely due to a preprocessor bug!)')
                 return node, location + end
-            if text[1:len(self.pname) + 2] == self.pname + TOKEN_DELIMITER:
+            if text[1:len(self.token) + 2] == self.token + TOKEN_DELIMITER:
                 if self.drop_content:
                     return EMPTY_NODE, location + end + 1
-                return Node(self.node_name, text[len(self.pname) + 2:end], True), location + end + 1
+                return Node(self.node_name, text[len(self.token) + 2:end], True), location + end + 1
         return None, location
 
 
-- 
2.43.0


From c8cf1f29ecaa2a0140b40bd08e0d8b9019221ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:01 +0000
Subject: [PATCH 102/138] fix: report malformed regular expressions in
 whitespace- and hide-directives

---
 DHParser/ebnf.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index c258179..42aa7de 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -2576,13 +2576,18 @@ class EBNFCompiler(Compiler):
             else:
                 value = self.extract_regex(node.children[1])
                 if key == 'whitespace':
-                    if not re.match(value, ''):
-                        self.tree.new_error(node, f"Implicit whitespace should "
-                            f"always match the empty string, /{value}/ does not.")
-                    elif not re.match(value, '\n\n'):
-                        self.tree.new_error(node, f"Implicit whitespace should always "
-                            f"match and at least return the empty string, but /{value}/ "
-                            f'does not match the empty beginning of "\\n\\n"!')
+                    try:
+                        re.compile(value)
+                    except Exception:
+                        pass  # malformed regular expression has already been reported
+                    else:
+                        if not re.match(value, ''):
+                            self.tree.new_error(node, f"Implicit whitespace should "
+                                f"always match the empty string, /{value}/ does not.")
+                        elif not re.match(value, '\n\n'):
+                            self.tree.new_error(node, f"Implicit whitespace should always "
+                                f"match and at least return the empty string, but /{value}/ "
+                                f'does not match the empty beginning of "\\n\\n"!')
             self.directives[key] = value
 
         elif key in ('hide', 'disposable'):
@@ -2591,12 +2596,19 @@ class EBNFCompiler(Compiler):
                     self.tree.new_error(node, f'Directive "@{key}" can only have one argument'
                                         ' if specified as regexp and not as a list of symbols.')
                 re_pattern = node.children[1].content
-                if re.match(re_pattern, ''):
+                try:
+                    matches_any = re.match(re_pattern, '')
+                except Exception as re_error:
                     self.tree.new_error(
-                        node, "The regular expression r'%s' matches any symbol, "
-                        "which is not allowed!" % re_pattern)
+                        node.children[1], "malformed regular expression %s: %s" %
+                        (repr(re_pattern), str(re_error)), MALFORMED_REGULAR_EXPRESSION)
                 else:
-                    self.directives.add_to_disposable_regexp(re_pattern)
+                    if matches_any:
+                        self.tree.new_error(
+                            node, "The regular expression r'%s' matches any symbol, "
+                            "which is not allowed!" % re_pattern)
+                    else:
+                        self.directives.add_to_disposable_regexp(re_pattern)
             else:
                 args = node.children[1:]
                 symlist = []
-- 
2.43.0


From f038a764e5cbdeeab9df7e2c04440aece4f1f65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:01 +0000
Subject: [PATCH 103/138] fix: do not let the static analysis fail on a grammar
 in which errors have been found already

---
 DHParser/ebnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 42aa7de..25ee1e2 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -2421,7 +2421,7 @@ class EBNFCompiler(Compiler):
                     python_src = python_src.replace(
                         'static_analysis_pending__ = [True]',
                         'static_analysis_pending__ = []  # type: List[bool]', 1)
-            except (TypeError, AttributeError) as te_ae:
+            except (TypeError, AttributeError, AssertionError) as te_ae:
                 if not (errors or self.tree.errors):
                     raise te_ae  # not merely a consequntial error of another reported error
             except SyntaxError as se:
-- 
2.43.0


From 08edf5c0c6e8ba9b5a03af2c1ab247e04544d297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:12 +0000
Subject: [PATCH 104/138] fix: check what a symbol in a lookbehind stands for

---
 DHParser/ebnf.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 25ee1e2..7e0d2ce 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3283,14 +3283,16 @@ class EBNFCompiler(Compiler):
                 nd = node
                 if len(nd.children) >= 1:
                     nd = nd.children[0]
-                while nd.name == "symbol":
-                    symlist = self.rules.get(nd.content, [])
-                    if len(symlist) == 2:
-                        nd = symlist[1]
-                    else:
-                        if len(symlist) == 1:
-                            nd = symlist[0].children[1]
-                        break
+                visited = set()
+                while nd.name in ("symbol", "group"):
+                    if nd.name == "group":
+                        nd = nd.children[0]
+                        continue
+                    if nd.content in visited or nd.content not in self.rules:
+                        return  # circular or undefined symbols are reported elsewhere
+                    visited.add(nd.content)
+                    definition = self.rules[nd.content][0]
+                    nd = definition[2 if definition[0].name == "modifier" else 1]
                 # content = nd.content
                 if nd.name not in ("regexp", "char_ranges"):
                     self.tree.new_error(node, "Lookbehind-parser can only be used with RegExp"
-- 
2.43.0


From 1150e37b823b92de6d499a9ae3d3bcdc364103fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:42 +0000
Subject: [PATCH 105/138] fix: report the retrieval of recursive symbols as an
 error

---
 DHParser/ebnf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 7e0d2ce..e1b8a77 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -2094,6 +2094,10 @@ class EBNFCompiler(Compiler):
         if self.variables:
             for i, (symbol, code) in enumerate(definitions):
                 if symbol in self.variables:
+                    if symbol in self.forward:
+                        for usage in self.variables[symbol]:
+                            self.tree.new_error(
+                                usage, f'Recursive symbol "{symbol}" cannot be retrieved!')
                     if set(self.symbols[symbol]) - set(self.variables[symbol]):
                         code = f'Capture({code}, zero_length_warning=True)'
                     else:
-- 
2.43.0


From cd65f9b750db57f95acdcac5351e6a948a973993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:42 +0000
Subject: [PATCH 106/138] fix: '@hide' is as repeatable as '@disposable'

---
 DHParser/ebnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index e1b8a77..a3cb49d 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -1412,7 +1412,7 @@ class EBNFDirectives:
                  'resume', 'disposable', 'drop', 'reduction', 'optimizations', 'flavor',
                  '_super_ws']
 
-    REPEATABLE_DIRECTIVES = {'tokens', 'preprocessor_tokens', 'disposable', 'drop'}
+    REPEATABLE_DIRECTIVES = {'tokens', 'preprocessor_tokens', 'disposable', 'hide', 'drop'}
 
     def __init__(self):
         self.whitespace: str               = WHITESPACE_TYPES['vertical']
-- 
2.43.0


From 787fa0afa8cef76b48c6eafb5ff4bc2be16c2262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:42 +0000
Subject: [PATCH 107/138] fix: a malformed regular expression for comments or
 whitespace is not used any further

---
 DHParser/ebnf.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index a3cb49d..2c94d14 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -2579,12 +2579,12 @@ class EBNFCompiler(Compiler):
                         f'Expected: {VALID_DIRECTIVES[key]}')
             else:
                 value = self.extract_regex(node.children[1])
-                if key == 'whitespace':
-                    try:
-                        re.compile(value)
-                    except Exception:
-                        pass  # malformed regular expression has already been reported
-                    else:
+                try:
+                    re.compile(value)
+                except Exception:
+                    return ""  # malformed regular expression has already been reported
+                else:
+                    if key == 'whitespace':
                         if not re.match(value, ''):
                             self.tree.new_error(node, f"Implicit whitespace should "
                                 f"always match the empty string, /{value}/ does not.")
-- 
2.43.0


From 7ac2d4e5e2a70fa1931d613726173d352294be8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:08 +0000
Subject: [PATCH 108/138] fix: lookbehind for symbols that are retrieved
 elsewhere

---
 DHParser/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 5de56a0..535944a 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4751,7 +4751,7 @@ class Lookbehind(FlowParser):
     """
     def __init__(self, parser: Parser) -> None:
         p = parser
-        while isinstance(p, Synonym):
+        while isinstance(p, (Synonym, Capture)):
             p = p.parser
         self.regexp = None
         self.text = ''  # type: str
-- 
2.43.0


From f60cc2c89ef1a7408875f007dce741b3e3598427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:44 +0000
Subject: [PATCH 109/138] fix: recompile_grammar(directory): compile every
 grammar in the directory

---
 DHParser/dsl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index 33912d3..367b870 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -657,8 +657,9 @@ def recompile_grammar(ebnf_filename: str,
     if os.path.isdir(ebnf_filename):
         success = True
         for entry in os.listdir(ebnf_filename):
-            if entry.lower().endswith('.ebnf') and os.path.isfile(entry):
-                success = success and recompile_grammar(entry, parser_name, force)
+            path = os.path.join(ebnf_filename, entry)
+            if entry.lower().endswith('.ebnf') and os.path.isfile(path):
+                success = recompile_grammar(path, parser_name, force, notify) and success
         return success
 
     base, _ = os.path.splitext(ebnf_filename)
-- 
2.43.0


From 30cacc217e89e7cc3485a782a35928be0872db99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:44 +0000
Subject: [PATCH 110/138] fix: create_scripts(directory): look for the grammars
 in the directory

---
 DHParser/dsl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index 367b870..11c78eb 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -735,8 +735,9 @@ def create_scripts(ebnf_filename: str,
     """
     if os.path.isdir(ebnf_filename):
         for entry in os.listdir(ebnf_filename):
-            if entry.lower().endswith('.ebnf') and os.path.isfile(entry):
-                create_scripts(entry)
+            path = os.path.join(ebnf_filename, entry)
+            if entry.lower().endswith('.ebnf') and os.path.isfile(path):
+                create_scripts(path, parser_name, server_name, app_name, overwrite)
         return
 
     base, _ = os.path.splitext(ebnf_filename)
-- 
2.43.0


From 558eddc1107aacbcb354650df102a697adf4fda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:12 +0000
Subject: [PATCH 111/138] fix: server: keep the ids of json-rpc-requests,
 answer requests without result, do not answer notifications

---
 DHParser/server.py | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 2d134a1..0415ee0 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1539,11 +1539,12 @@ class Server:
                 pass  # result is not a dictionary, never mind
             except KeyError:
                 pass  # no errors in result
-            if json_id is not None and result is not None:
+            if 'id' in json_obj:  # notifications must not be answered
                 try:
                     if isinstance(result, (bytes, bytearray)):
                         # assume that result is a json-format byte-string!
-                        response = b'{"jsonrpc": "2.0", "result": %s, "id": %i}' % (result, json_id)
+                        response = b'{"jsonrpc": "2.0", "result": %s, "id": %s}' \
+                            % (result, json.dumps(json_id).encode())
                     else:
                         json_result = {"jsonrpc": "2.0", "result": result, "id": json_id}
                         response = json_dumps(json_result, cls=DHParser_JSONEncoder)
@@ -1551,17 +1552,10 @@ class Server:
                 except TypeError as err:
                     rpc_error = -32070, str(err)
 
-        if rpc_error is not None:
-            if json_id >= 0:
-                json_str = '{"jsonrpc": "2.0", "error": {"code": %i, "message": %s}, "id": %s}'%\
-                       (rpc_error[0], json_encode_string(rpc_error[1]), str(json_id))
-            else:
-                json_str = '{"jsonrpc": "2.0", "error": {"code": %i, "message": %s}}' % \
-                       (rpc_error[0], json_encode_string(rpc_error[1]))
+        if rpc_error is not None and 'id' in json_obj:
+            json_str = '{"jsonrpc": "2.0", "error": {"code": %i, "message": %s}, "id": %s}'%\
+                   (rpc_error[0], json_encode_string(rpc_error[1]), json.dumps(json_id))
             await self.respond(writer, json_str)
-
-        if result is not None or rpc_error is not None:
-            await writer.drain()
         assert self.connection
         self.connection.task_done(json_id)
 
@@ -1711,7 +1705,8 @@ class Server:
                 # assume json
                 # TODO: add batch processing capability!
                 #       (put calls to execute in asyncio tasks, use asyncio.gather)
-                json_id = 0       # type: int
+                json_id = 0       # type: Union[int, str, None]
+                is_request = True # type: bool
                 raw = None        # type: Optional[JSON_Type]
                 json_obj = {}     # type: JSON_Dict
                 rpc_error = None  # type: Optional[RPC_Error_Type]
@@ -1735,11 +1730,11 @@ class Server:
                 if rpc_error is None:
                     if isinstance(raw, Dict):
                         json_obj = cast(JSON_Dict, raw)
-                        raw_id = json_obj.get('id', gen_task_id())
-                        try:
-                            json_id = int(raw_id)
-                        except TypeError:
-                            json_id = 0
+                        is_request = 'id' in json_obj or 'method' not in json_obj
+                        json_id = json_obj.get('id', gen_task_id())
+                        if not isinstance(json_id, (int, float, str, type(None))):
+                            json_id = None
+                            rpc_error = -32600, 'Invalid Request: id must be a number or string'
                     else:
                         rpc_error = -32700, 'Parse error: JSON-package does not appear '\
                                             'to ba an RPC-call or -response!?'
@@ -1768,9 +1763,10 @@ class Server:
                         rpc_error = -32700, 'Parse error: Not a valid JSON-RPC! '\
                                             '"method" or "response"-field missing.'
 
-                if rpc_error is not None:
-                    response = '{"jsonrpc": "2.0", "error": {"code": %i, "message": "%s"},'\
-                        ' "id": %s}' % (rpc_error[0], rpc_error[1], json_id)
+                if rpc_error is not None and is_request:
+                    response = '{"jsonrpc": "2.0", "error": {"code": %i, "message": %s},'\
+                        ' "id": %s}' % (rpc_error[0], json_encode_string(rpc_error[1]),
+                                        json.dumps(json_id))
                     await self.respond(writer, response)
 
             if not id_connection:
-- 
2.43.0


From 8a056ab2c1c3409d73f1af745f7c39c0144fcba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:12 +0000
Subject: [PATCH 112/138] fix: server: json-rpc-params by position

---
 DHParser/server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 0415ee0..4282d23 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1512,13 +1512,14 @@ class Server:
             rpc_error = -32601, 'Method not found: ' + str(json_obj['method'])
         elif method_name in self.rpc_table:
             method = self.rpc_table[method_name]
-            params = json_obj['params'] if 'params' in json_obj else {}
+            params = json_obj.get('params', None) or {}
             if service_call:
                 err_func = lambda *args, **kwargs: {
                     "error": {"code": -32601,
                               "message": "%s is not a service function" % method_name}}
                 method, params = self.amend_service_call(method_name, method, params, err_func)
-            params['ID'] = json_id
+            if isinstance(params, Dict):
+                params['ID'] = json_id
             result, rpc_error = await self.run(method_name, method, params)
 
         if isinstance(result, Dict) and 'error' in result:
-- 
2.43.0


From 4f0e0b4094e5a42ff1c34893247a4872b7f1d29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:12 +0000
Subject: [PATCH 113/138] fix: server: invalid json-rpc-messages must not end
 the connection

---
 DHParser/server.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 4282d23..96207c9 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1495,7 +1495,7 @@ class Server:
         result = None      # type: Optional[JSON_Type]
         rpc_error = None   # type: Optional[RPC_Error_Type]
         method_name = json_obj.get('method', '')
-        if json_obj.get('jsonrpc', '0.0') < '2.0':
+        if str(json_obj.get('jsonrpc', '0.0')) < '2.0':
             rpc_error = -32600, 'Invalid Request: jsonrpc version 2.0 needed, version "' \
                                 ' "%s" found.' % json_obj.get('jsonrpc', b'unknown')
         elif not method_name:
@@ -1724,7 +1724,7 @@ class Server:
                     try:
                         raw = json.loads(data) if sys.version_info >= (3, 6, 0) \
                             else json.loads(data.decode())
-                    except json.decoder.JSONDecodeError as e:
+                    except ValueError as e:  # JSONDecodeError, UnicodeDecodeError
                         rpc_error = -32700, "JSONDecodeError: " \
                             + (str(e) + str(data)).replace('"', "`")
 
@@ -1743,8 +1743,11 @@ class Server:
                 if rpc_error is None:
                     method = json_obj.get('method', '')
                     response = json_obj.get('result', None) or json_obj.get('error', None)
-                    if method:
-                        assert isinstance(method, str)
+                    if not isinstance(method, str):
+                        rpc_error = -32600, 'Invalid Request: method must be a string'
+                    elif method and json_id in self.connection.active_tasks:
+                        rpc_error = -32600, 'Invalid Request: id is already in use'
+                    elif method:
                         if id_connection or method != 'initialize':
                             rpc_error = self.connection.verify_initialization(
                                 method, self.strict_lsp and bool(id_connection))
-- 
2.43.0


From 3666d177cfec77d5235b546ae77498967e074bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:12 +0000
Subject: [PATCH 114/138] fix: server: accept any kind of response from the
 client

---
 DHParser/server.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 96207c9..9fd41ad 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1742,7 +1742,6 @@ class Server:
 
                 if rpc_error is None:
                     method = json_obj.get('method', '')
-                    response = json_obj.get('result', None) or json_obj.get('error', None)
                     if not isinstance(method, str):
                         rpc_error = -32600, 'Invalid Request: method must be a string'
                     elif method and json_id in self.connection.active_tasks:
@@ -1760,8 +1759,8 @@ class Server:
                                     task = None
                         else:
                             rpc_error = -32002, 'server is already connected to another client'
-                    elif response is not None:
-                        if id_connection:
+                    elif 'result' in json_obj or 'error' in json_obj:
+                        if id_connection and self.connection.response_queue is not None:
                             self.connection.put_response(json_obj)
                     else:
                         rpc_error = -32700, 'Parse error: Not a valid JSON-RPC! '\
-- 
2.43.0


From 71fcff4d817c6b95c46b9be4db692d92e07e38cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:12 +0000
Subject: [PATCH 115/138] fix: server: result that cannot be serialized or
 looks like an error must be answered

---
 DHParser/server.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 9fd41ad..3213cb5 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1536,8 +1536,8 @@ class Server:
                 except KeyError:
                     error = cast(Dict[str, str], result)
                 rpc_error = int(error['code']), error['message']
-            except TypeError:
-                pass  # result is not a dictionary, never mind
+            except (TypeError, ValueError):
+                pass  # result is not a dictionary or code not a number, never mind
             except KeyError:
                 pass  # no errors in result
             if 'id' in json_obj:  # notifications must not be answered
@@ -1550,7 +1550,7 @@ class Server:
                         json_result = {"jsonrpc": "2.0", "result": result, "id": json_id}
                         response = json_dumps(json_result, cls=DHParser_JSONEncoder)
                     await self.respond(writer, response)
-                except TypeError as err:
+                except (TypeError, ValueError) as err:
                     rpc_error = -32070, str(err)
 
         if rpc_error is not None and 'id' in json_obj:
-- 
2.43.0


From 041893b3a14ccc4030f765184069d4765e3cebc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:12 +0000
Subject: [PATCH 116/138] fix: server: finish open tasks and release the
 connection when the client has closed it

---
 DHParser/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 3213cb5..3f66a4b 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1787,7 +1787,8 @@ class Server:
                 self.log('SERVER MESSAGE: Closing service-connection.')
                 return
 
-        if self.connection and (self.kill_switch or not self.connection.alive):
+        if self.connection and (self.kill_switch or not self.connection.alive
+                                or (id_connection and reader.at_eof())):
             await self.connection.cleanup()
             try:
                 writer.write_eof()
-- 
2.43.0


From 7875672b1528991ed69eddd154e82bfdcac15809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:12 +0000
Subject: [PATCH 117/138] fix: server: Content-Length counts bytes, not
 characters

---
 DHParser/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 3f66a4b..bf834c7 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1383,8 +1383,8 @@ class Server:
 
         async def respond(response: Union[str, bytes, bytearray]):
             if header:
-                HEADER = JSONRPC_HEADER if isinstance(response, str) else JSONRPC_HEADER_BYTES
-                await self.respond(writer, HEADER % len(response) + response)
+                if isinstance(response, str):  response = response.encode()
+                await self.respond(writer, JSONRPC_HEADER_BYTES % len(response) + response)
             else:
                 await self.respond(writer, response)
 
-- 
2.43.0


From 70d381f1864151ac1c0d92e15100a19450570f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:12 +0000
Subject: [PATCH 118/138] fix: server: header-fields before the Content-Length
 arriving in an earlier chunk

---
 DHParser/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index bf834c7..50fc108 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -319,8 +319,8 @@ def http_response(html: Union[str, bytes], mime_type: str = 'text/html') -> byte
 
 def incomplete_header(data: BytesType) -> bool:
     """Returns `True` if data appears to represent an incomplete header."""
-    return b'Content-Length'.startswith(data) or \
-           (data.startswith(b'Content-Length') and not re.search(RE_DATA_START, data))
+    return b'Content-'.startswith(data) or \
+           (data.startswith(b'Content-') and not re.search(RE_DATA_START, data))
 
 
 def split_header(data: BytesType) -> Tuple[BytesType, BytesType, BytesType]:
-- 
2.43.0


From eebfba2e36ef634a7827032c759e22ca19150397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:12 +0000
Subject: [PATCH 119/138] fix: server: a message of the length zero must not
 stall the server

---
 DHParser/server.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 50fc108..5391de8 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1593,7 +1593,7 @@ class Server:
             # reset the data variable
             data = bytearray()  # type: bytearray
             # reset the content length
-            content_length = 0  # type: int
+            content_length = -1  # type: int
             # reset the length of the header, represented by the variable `k`
             k = 0  # type: int
 
@@ -1629,7 +1629,7 @@ class Server:
             #
             # see also: test/test_server.TestLanguageServer.test_varying_data_chunk_sizes
 
-            while (content_length <= 0 or len(data) < content_length + k) and connection_alive():
+            while (content_length < 0 or len(data) < content_length + k) and connection_alive():
                 if buffer:
                     # if there is any data in the buffer, retrieve this first,
                     # before awaiting further data from the stream
@@ -1638,13 +1638,14 @@ class Server:
                 else:
                     try:
                         # await asyncio.sleep(0)
-                        data += await reader.read(content_length or self.max_data_size)
+                        data += await reader.read(
+                            content_length if content_length > 0 else self.max_data_size)
                     except ConnectionError as err:  # (ConnectionAbortedError, ConnectionResetError)
                         self.log('ERROR while awaiting data: ', str(err), '\n')
                         if id_connection:
                             self.connection.alive = False
                         break
-                if content_length <= 0 or k <= 0:
+                if content_length < 0 or k <= 0:
                     # If content-length has not been set, look for it in the received data package.
                     i = data.find(b'Content-Length:', 0, 512)
                     m = RX_CONTENT_LENGTH.match(data, i, i + 100) if i >= 0 else None
@@ -1659,7 +1660,7 @@ class Server:
                                 data = data[:k + content_length]
                         else:
                             k = len(data)
-                            content_length = 0
+                            content_length = -1
                     elif not incomplete_header(data):
                         # no header or no content-length given
                         # set `context_length` to the size of the data to break the loop
-- 
2.43.0


From 94f62564f7c2bf0aa93bcd5dec2e8375208a0abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:12 +0000
Subject: [PATCH 120/138] fix: Connection.client_response: responses belong to
 the call with their id

---
 DHParser/server.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 5391de8..f90d311 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -799,6 +799,7 @@ class Connection:
         self.active_tasks = dict()       # type: Dict[int, asyncio.Future]
         self.finished_tasks = set()      # type: Set[int]
         self.response_queue = None       # type: Optional[asyncio.Queue]
+        self.response_arrived = None     # type: Optional[asyncio.Event]
         self.pending_responses = dict()  # type: Dict[int, List[JSON_Type]]
         self.lsp_initialized = ""        # type: str
         self.lsp_shutdown = ""           # type: str
@@ -843,6 +844,9 @@ class Connection:
         #     self.log('RESULT: ', json_dumps(json_obj), '\n')
         assert self.response_queue is not None
         self.response_queue.put_nowait(json_obj)
+        if self.response_arrived is not None:  # wake up all waiting tasks
+            self.response_arrived.set()
+            self.response_arrived = None
 
     async def _server_call(self, method: str, params: JSON_Type, ID: Optional[int]):
         """Issues a json-rpc call from the server to the client."""
@@ -868,8 +872,14 @@ class Connection:
         pending = self.pending_responses.get(call_id, [])
         while not pending:
             assert self.response_queue is not None
-            response = await self.response_queue.get()
-            self.pending_responses.setdefault(call_id, []).insert(0, response)
+            while not self.response_queue.empty():
+                response = self.response_queue.get_nowait()
+                self.pending_responses.setdefault(
+                    response.get('id', call_id), []).insert(0, response)
+            if not self.pending_responses.get(call_id, []):
+                if self.response_arrived is None:
+                    self.response_arrived = asyncio.Event()
+                await self.response_arrived.wait()
             pending = self.pending_responses.get(call_id, [])
         response = pending.pop()
         return response
-- 
2.43.0


From b2992b109b920689114dac3e086048831ad07489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:12 +0000
Subject: [PATCH 121/138] fix: LSPBase: all rpc-functions are called with the
 ID of the request

---
 DHParser/lsp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/lsp.py b/DHParser/lsp.py
index ae63f90..2eafa5e 100644
--- a/DHParser/lsp.py
+++ b/DHParser/lsp.py
@@ -6307,10 +6307,11 @@ class LSPBase:
         return {'capabilities': self.lsp_data['serverCapabilities'],
                 'serverInfo': self.lsp_data['serverInfo']}
 
-    def lsp_initialized(self, params: InitializedParams) -> None:
+    def lsp_initialized(self, **kwargs) -> None:
+        # InitializedParams -> None
         pass
 
-    def lsp_shutdown(self) -> Dict:
+    def lsp_shutdown(self, **kwargs) -> Dict:
         self.lsp_data['processId'] = 0
         self.lsp_data['rootUri'] = ''
         self.lsp_data['clientCapabilities'] = dict()
-- 
2.43.0


From b1dd149cd72570727e890610b1fc972d5ac16092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:12 +0000
Subject: [PATCH 122/138] fix: json_dumps: keys of json-objects must be
 escaped, too

---
 DHParser/toolkit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 454df22..38ce0b8 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -1601,7 +1601,7 @@ def json_dumps(obj: JSON_Type, *, cls=json.JSONEncoder, partially_serialized: bo
             if obj:
                 r = ['{']
                 for k, v in obj.items():
-                    r.append('"' + k + '":')
+                    r.append(json_encode_string(k) + ':')
                     r.extend(serialize(v))
                     r.append(',')
                 r[-1] = '}'
-- 
2.43.0


From 554052c037e6407134c93b207434959086944f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:24 +0000
Subject: [PATCH 123/138] fix: server: more than a hundred responses that have
 not been fetched must not end the connection

---
 DHParser/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index f90d311..4a92b2e 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -899,7 +899,7 @@ class Connection:
             else:
                 self.lsp_initialized = LSP_INITIALIZING
                 self.lsp_shutdown = ''
-                self.response_queue = asyncio.Queue(maxsize=100)
+                self.response_queue = asyncio.Queue()
         elif method == "initialized":
             if self.lsp_initialized == LSP_INITIALIZING:
                 self.lsp_initialized = LSP_INITIALIZED
-- 
2.43.0


From 805aa648ebc0c27b89ea5aea3cc963c4678b783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:35 +0000
Subject: [PATCH 124/138] fix: server: id in the answers to messages that are
 no requests

---
 DHParser/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 4a92b2e..f403cff 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1743,7 +1743,8 @@ class Server:
                     if isinstance(raw, Dict):
                         json_obj = cast(JSON_Dict, raw)
                         is_request = 'id' in json_obj or 'method' not in json_obj
-                        json_id = json_obj.get('id', gen_task_id())
+                        json_id = json_obj.get(
+                            'id', gen_task_id() if 'method' in json_obj else None)
                         if not isinstance(json_id, (int, float, str, type(None))):
                             json_id = None
                             rpc_error = -32600, 'Invalid Request: id must be a number or string'
-- 
2.43.0


From 570a1c43321cf13405ec166419ff53157914d97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:06 +0000
Subject: [PATCH 125/138] fix: server: messages that cannot be read have no id
 (not the id 0)

---
 DHParser/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index f403cff..49daa70 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1717,7 +1717,7 @@ class Server:
                 # assume json
                 # TODO: add batch processing capability!
                 #       (put calls to execute in asyncio tasks, use asyncio.gather)
-                json_id = 0       # type: Union[int, str, None]
+                json_id = None    # type: Union[int, str, None]
                 is_request = True # type: bool
                 raw = None        # type: Optional[JSON_Type]
                 json_obj = {}     # type: JSON_Dict
-- 
2.43.0


From c9a34a689c653f58800703eeb9bcc31536b5f923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:27 +0000
Subject: [PATCH 126/138] fix: nodetree: deserialize() raises ValueError for
 text that is no tree

---
 DHParser/nodetree.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 6dcad4c..03226c4 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3729,16 +3729,18 @@ def deserialize(xml_sxpr_or_json: str) -> Optional[Node]:
     Parses either XML or S-expressions or a JSON representation of a
     syntax-tree. Which of these is detected automatically.
     """
-    if RX_IS_XML.match(xml_sxpr_or_json):
-        return parse_xml(xml_sxpr_or_json)
-    elif RX_IS_SXPR.match(xml_sxpr_or_json):
-        return parse_sxpr(xml_sxpr_or_json)
-    elif re.fullmatch(r'\s*', xml_sxpr_or_json):
+    if re.fullmatch(r'\s*', xml_sxpr_or_json):
         return None
+    elif RX_IS_XML.match(xml_sxpr_or_json) or RX_IS_SXPR.match(xml_sxpr_or_json):
+        try:
+            return parse_xml(xml_sxpr_or_json) if RX_IS_XML.match(xml_sxpr_or_json) \
+                else parse_sxpr(xml_sxpr_or_json)
+        except (AssertionError, IndexError) as e:
+            raise ValueError(str(e) or 'Malformed snippet: ' + xml_sxpr_or_json[:80])
     else:
         try:
             return parse_json(xml_sxpr_or_json)
-        except json.decoder.JSONDecodeError:
+        except (json.decoder.JSONDecodeError, AssertionError, IndexError):
             m = re.match(r'\s*(.*)\n?', xml_sxpr_or_json)
             snippet = m.group(1) if m else ''
             raise ValueError('Snippet is neither S-expression nor XML: ' + snippet + ' ...')
-- 
2.43.0


From 709bc310d79297a74eb5b515ed7a47171f40dad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:27 +0000
Subject: [PATCH 127/138] fix: testing: tests of later stages whose name is
 marked with an asterisk must not be skipped

---
 DHParser/testing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DHParser/testing.py b/DHParser/testing.py
index 6411b99..a8af992 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -591,7 +591,11 @@ def grammar_unit(test_unit, parser_factory, transformer_factory, report='REPORT'
             try:
                 return tests[category][key]
             except KeyError:
-                return tests[category][clean_key(key)]
+                clean = clean_key(key)
+                for k, case in tests[category].items():
+                    if clean_key(k) == clean:
+                        return case
+                return ""
         except KeyError:
             return ""
 
-- 
2.43.0


From 7e5dd0d1f187692bb8e1a55930b07e9375ecfe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:27 +0000
Subject: [PATCH 128/138] fix: testing: texts that end with a quotation mark
 must not be enclosed by the same marks

---
 DHParser/testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/testing.py b/DHParser/testing.py
index a8af992..963d43d 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -340,14 +340,14 @@ def format_casestr(s: str) -> str:
     """Adds quotation marks and possibly indentation to a text-case string."""
     if s.find("\n") >= 0:
         for q in ('"""', "'''"):
-            if s.find(q) < 0:
+            if s.find(q) < 0 and not s.endswith(q[0]):
                 l = s.split('\n')
                 for i in range(1, len(l)):
                     l[i] = "    " + l[i]
                 return ''.join((q, '\n'.join(l), q))
     else:
         for q in ('"', "'", '"""', "'''"):
-            if s.find(q) < 0:
+            if s.find(q) < 0 and not s.endswith(q[0]):
                 return ''.join((q, s, q))
     raise ValueError(
         f"Cannot add quotation marks to {s}, because all possible single or tripple "
-- 
2.43.0


From 343575c72d34c8de4fde637156689b3d0f1863a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:04 +0000
Subject: [PATCH 129/138] fix: testing: warnings do not turn a
 lookahead-artifact into a failure

---
 DHParser/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/testing.py b/DHParser/testing.py
index 963d43d..4e150ac 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -632,7 +632,7 @@ def grammar_unit(test_unit, parser_factory, transformer_factory, report='REPORT'
         """
         if not get_config_value('test_suppress_lookahead_failures'):
             return False
-        raw_errors = cast(RootNode, syntax_tree).errors
+        raw_errors = [e for e in cast(RootNode, syntax_tree).errors if is_error(e.code)]
         is_artifact = ({e.code for e in raw_errors} <= POSSIBLE_ARTIFACTS
                        or (len(raw_errors) == 1
                            and (raw_errors[-1].code == PARSER_LOOKAHEAD_MATCH_ONLY
-- 
2.43.0


From f3edd9a7c7e96158a48b12097e8f58727c952478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:04 +0000
Subject: [PATCH 130/138] fix: testing: stages that are missing because of a
 reported error must not end the test-run

---
 DHParser/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/testing.py b/DHParser/testing.py
index 4e150ac..ae27405 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -833,7 +833,7 @@ def grammar_unit(test_unit, parser_factory, transformer_factory, report='REPORT'
                     except KeyError as ke:
                         # ignore key errors in case they are only consequential errors
                         # of earlier errors
-                        if err.code != PYTHON_ERROR_IN_TEST:
+                        if len(errata) == errflag:
                             raise ke
                 # keep test-items, so that the order of the items is the same as
                 # in which they are processed in the pipeline.
-- 
2.43.0


From 074dd56098b78c0a52e34434859b185829bcfb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:25 +0000
Subject: [PATCH 131/138] fix: dsl.process_file(): the default serialization is
 one name and not a sequence of letters

---
 DHParser/dsl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index 11c78eb..771fdcf 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -844,7 +844,7 @@ def process_file(source: str, out_dir: str,
             path = os.path.join(out_dir, t, '.'.join([dest_name, t]))
             if isinstance(result, Node):
                 slist = serializations.get(t, serializations.get(
-                    '*', get_config_value('default_serialization')))
+                    '*', [get_config_value('default_serialization')]))
                 for s in slist:
                     s = s.lower()  # normalize file-extensions:
                     if s == 'default':  s = get_config_value('default_serialization').lower()
-- 
2.43.0


From 55094ee66fb260a7d988a0f684cef16096a1b85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:25 +0000
Subject: [PATCH 132/138] fix: dsl.process_file(): results with fatal errors
 are not written

---
 DHParser/dsl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index 771fdcf..43053d0 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -36,7 +36,7 @@ from DHParser.configuration import get_config_value, set_config_value
 from DHParser.ebnf import EBNFCompiler, DHPARSER_IMPORTS, \
     get_ebnf_preprocessor, get_ebnf_grammar, get_ebnf_transformer, get_ebnf_compiler
 from DHParser.error import Error, is_error, has_errors, only_errors, canonical_error_strings, \
-    ErrorCode, ERROR
+    ErrorCode, ERROR, FATAL
 from DHParser.log import suspend_logging, resume_logging, is_logging, append_log
 from DHParser.nodetree import Node
 from DHParser.parse import Grammar, ParserFactory
@@ -840,7 +840,7 @@ def process_file(source: str, out_dir: str,
             if estr not in errstrs:
                 errstrs.add(estr)
                 errors.append(e)
-        if t in end_results:
+        if t in end_results and not has_errors(err, FATAL):
             path = os.path.join(out_dir, t, '.'.join([dest_name, t]))
             if isinstance(result, Node):
                 slist = serializations.get(t, serializations.get(
-- 
2.43.0


From 6665e423ec37419aad9f0a0e6d750fa24744d7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:25 +0000
Subject: [PATCH 133/138] fix: dsl.process_file(): the file extension is
 normalized for the default-serialization, too

---
 DHParser/dsl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index 43053d0..21b89b2 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -848,7 +848,7 @@ def process_file(source: str, out_dir: str,
                 for s in slist:
                     s = s.lower()  # normalize file-extensions:
                     if s == 'default':  s = get_config_value('default_serialization').lower()
-                    elif s == 's-expression':  s = 'sxpr'
+                    if s == 's-expression':  s = 'sxpr'
                     elif s == 'indented':  s = 'tree'
                     data = result.serialize(s)
                     with open('.'.join([path, s]), 'w', encoding='utf-8') as f:
-- 
2.43.0


From f256f1af8c6ba62c9acbff698fd152c7e3bfc943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:04 +0000
Subject: [PATCH 134/138] fix: dsl.process_file(): the output-directory is
 created even if there is nothing but messages to write

---
 DHParser/dsl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index 21b89b2..076f17b 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -861,6 +861,7 @@ def process_file(source: str, out_dir: str,
     if errors:
         err_ext = '_ERRORS.txt' if has_errors(errors, ERROR) else '_WARNINGS.txt'
         err_filename = os.path.join(out_dir, dest_name + err_ext)
+        os.makedirs(out_dir, exist_ok=True)
         with open(err_filename, 'w', encoding='utf-8') as f:
             f.write('\n'.join(canonical_error_strings(errors)))
         return err_filename
-- 
2.43.0


From 8bb8b623a83374aeb0c989b0068ba0a44c8eaae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:04 +0000
Subject: [PATCH 135/138] fix: toolkit.instantiate_executor(): multithreading
 with PickMultiCoreExecutor, which is not a class

---
 DHParser/toolkit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 38ce0b8..544f0e4 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -2151,7 +2151,8 @@ def instantiate_executor(allow_parallel: bool,
         if mode == "singlethread":
             return SingleThreadExecutor()
         elif mode == "multithreading" or multiprocessing_broken():
-            if not (issubclass(preferred_executor, concurrent.futures.ThreadPoolExecutor)):
+            if not (isinstance(preferred_executor, type)
+                    and issubclass(preferred_executor, concurrent.futures.ThreadPoolExecutor)):
                 return concurrent.futures.ThreadPoolExecutor(*args, **kwargs)
         else:
             assert mode in ("multicore", "multiprocessing"), \
-- 
2.43.0


From d53d3b9a1682eba0d1c8febfe4cccb59acdbd009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:47 +0000
Subject: [PATCH 136/138] fix: ebnf: @..._error-directive without message
 string yields an error instead of a NameError

---
 DHParser/ebnf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 2c94d14..ed8e8f2 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -2741,6 +2741,7 @@ class EBNFCompiler(Compiler):
                 self.tree.new_error(
                     node, 'Directive "%s" requires message string or a pair ' % key
                     + '(regular expression or search string, message string) as argument!')
+                return ""
             if len(node.children) == 2:
                 error_msgs.append(('', unrepr(node.children[1].content)))
             elif len(node.children) == 3:
-- 
2.43.0


From 9af4d1f5a30a4a810288bffc45e5e5fc9ea4e645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:16 +0000
Subject: [PATCH 137/138] fix: ebnf: @drop = strings etc. must not drop the
 definition of a symbol that is put in brackets

---
 DHParser/ebnf.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index ed8e8f2..ba480a2 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -2853,7 +2853,7 @@ class EBNFCompiler(Compiler):
         drop_regexp = drop_clause + f'{self.P["RegExp"]}('
         drop_text = drop_clause + f'{self.P["Text"]}('
         if (parser_class == self.P["Series"] and node.name not in self.directives.drop
-            and DROP_REGEXP in self.directives.drop and self.path[-2].name == "definition"
+            and DROP_REGEXP in self.directives.drop and self.is_definiens()
             and len([arg for arg in arguments
                      if arg not in EBNFCompiler.COMMENT_OR_WHITESPACE]) == 1
             and all((arg.startswith(drop_regexp) or arg.startswith(drop_text)
@@ -3146,7 +3146,7 @@ class EBNFCompiler(Compiler):
         if any(nd.name == TOKEN_PTYPE and nd.content == "§" for nd in node.children):
             raise ValueError('Cannot optimize sequences with mandatory marker!')
         rxps, rep_strs = [], []
-        undrop = len(self.path) >= 2 and self.path[-2].name == "definition" \
+        undrop = self.is_definiens() \
                  and node.name not in self.directives.drop \
                  and len([child for child in node.children if child.name != "whitespace"]) == 1 \
                  and all(child.name in ('regexp', 'literal', 'plaintext', 'whitespace',
@@ -3481,8 +3481,17 @@ class EBNFCompiler(Compiler):
             return symbol
 
 
+    def is_definiens(self) -> bool:
+        """Returns True, if the present node is the whole right-hand side of a
+        definition, no matter whether it has been put in brackets."""
+        i = len(self.path) - 2
+        while i > 0 and self.path[i].name == "group":
+            i -= 1
+        return i >= 0 and self.path[i].name == "definition"
+
+
     def drop_on(self, category):
-        return category in self.directives.drop and self.path[-2].name != "definition"
+        return category in self.directives.drop and not self.is_definiens()
 
 
     def TEXT_PARSER(self, text, drop):
@@ -3515,7 +3524,7 @@ class EBNFCompiler(Compiler):
     def WSPC_PARSER(self, force_drop=False):
         if ((force_drop or DROP_WSPC in self.directives.drop
              or DROP_NO_COMMENTS in self.directives.drop)
-                and (self.path[-2].name != "definition"
+                and (not self.is_definiens()
                      or self.path[-1].name == 'literal')):
             return 'dwsp__'
         return 'wsp__'
-- 
2.43.0


From 6316712fae06262894e5c029effe6d732f98538c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:50 +0000
Subject: [PATCH 138/138] fix: nodetree.Node.from_json_obj(): children the
 names of which end with a double underscore (ZOMBIE__) must not get lost

---
 DHParser/nodetree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 03226c4..4375d12 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -2457,7 +2457,8 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
                 content = result.get('content__', None)
                 if content is None:
                     result = tuple(Node.from_json_obj({k: v})
-                                   for k, v in result_iter if k[-2:] != '__')
+                                   for k, v in result_iter
+                                   if k not in ('pos__', 'attributes__'))
                 else:
                     result = content
             node = Node(name, result)
-- 
2.43.0

