From 58dd40922e3c64d19e297f77b871354798bf3f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:06 +0000
Subject: [PATCH 01/38] fix: drop transitions of lower priority than the match
 they follow

An accepting state kept its out-edges which come after the match insertion
point, so a(b*|a) on 'aa' reported 0-2 though the empty alternative of b*
has priority over the a alternative.
---
 src/lib/nfabuilder.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/nfabuilder.cpp b/src/lib/nfabuilder.cpp
index 39b4134..a3d6878 100644
--- a/src/lib/nfabuilder.cpp
+++ b/src/lib/nfabuilder.cpp
@@ -446,6 +446,13 @@ void NFABuilder::finish(const ParseNode& n) {
         NFA::Vertex& final((*Fsm)[v]);
         final.Label = CurLabel;
         final.IsMatch = true;
+
+        // The insertion point is where the match falls among the edges out
+        // of v. Edges after it have lower priority than the match itself, so
+        // following them could only ever produce a match which loses to it.
+        while (Fsm->outDegree(v) > i->second) {
+          Fsm->removeEdge(Fsm->outEdge(v, Fsm->outDegree(v) - 1));
+        }
       }
     }
     // std::cout << "final is " << final << std::endl;
-- 
2.43.0


From 26f3f9a8363db8a64c2b88e45d205cbe0546c71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:06 +0000
Subject: [PATCH 02/38] fix: do not make repetition bodies non-greedy-reduced
 when they repeat

The body of S{n,...} with n > 1 is not in suffix position for all but its
last iteration, so (ab??){2} must not be reduced to (a){2}: it failed to
match 'aba'.
---
 src/lib/rewriter.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib/rewriter.cpp b/src/lib/rewriter.cpp
index 79a6ab1..a72923b 100644
--- a/src/lib/rewriter.cpp
+++ b/src/lib/rewriter.cpp
@@ -615,15 +615,24 @@ bool reduceTrailingNongreedyThenEmpty(ParseNode* n, std::stack<ParseNode*>& bran
   case ParseNode::LOOKBEHIND_NEG:
   case ParseNode::LOOKAHEAD_POS:
   case ParseNode::LOOKAHEAD_NEG:
-  case ParseNode::REPETITION:
     ret = reduceTrailingNongreedyThenEmpty(n->Child.Left, branch);
     break;
 
+  case ParseNode::REPETITION:
+    // S is not a suffix in S{n,m} when n > 1, as at least one more S must
+    // follow all but the last of the n mandatory ones
+    if (n->Child.Rep.Min <= 1) {
+      ret = reduceTrailingNongreedyThenEmpty(n->Child.Left, branch);
+    }
+    break;
+
   case ParseNode::REPETITION_NG:
     // replace S{n,m}? with S{n}
     n->setType(ParseNode::REPETITION);
     n->Child.Rep.Max = n->Child.Rep.Min;
-    reduceTrailingNongreedyThenEmpty(n->Child.Left, branch);
+    if (n->Child.Rep.Min <= 1) {
+      reduceTrailingNongreedyThenEmpty(n->Child.Left, branch);
+    }
     ret = true;
     break;
 
-- 
2.43.0


From 325afad3191933adbd97c4c6f84f2c9c4baaae74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:06 +0000
Subject: [PATCH 03/38] fix: keep the nonempty alternative after an empty one

(a{0}|b)c was rewritten to c, and so never matched 'bc' at 0. An
alternative which follows one that only matches empty is unreachable only
in suffix position; elsewhere T{0}|S is S??.
---
 src/lib/rewriter.cpp | 51 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 5 deletions(-)

diff --git a/src/lib/rewriter.cpp b/src/lib/rewriter.cpp
index a72923b..64015d9 100644
--- a/src/lib/rewriter.cpp
+++ b/src/lib/rewriter.cpp
@@ -144,9 +144,6 @@ bool has_only_zero_length_match(const ParseNode* n) {
     return !n->Child.Left || has_only_zero_length_match(n->Child.Left);
 
   case ParseNode::ALTERNATION:
-    // Left has priority, so we don't need to check right.
-    return has_only_zero_length_match(n->Child.Left);
-
   case ParseNode::CONCATENATION:
     return has_only_zero_length_match(n->Child.Left) &&
            has_only_zero_length_match(n->Child.Right);
@@ -168,10 +165,45 @@ bool has_only_zero_length_match(const ParseNode* n) {
   }
 }
 
+void dropUnreachableAlternatives(ParseNode* n, bool suffix) {
+  // (S{0}Q|T) = S{0} as a suffix, since the empty match always succeeds there
+
+  switch (n->Type) {
+  case ParseNode::REGEXP:
+    if (n->Child.Left) {
+      dropUnreachableAlternatives(n->Child.Left, suffix);
+    }
+    break;
+
+  case ParseNode::REPETITION:
+  case ParseNode::REPETITION_NG:
+    // the body of S{n,m} is not a suffix when more than one S must match
+    dropUnreachableAlternatives(n->Child.Left, suffix && n->Child.Rep.Min <= 1);
+    break;
+
+  case ParseNode::CONCATENATION:
+    dropUnreachableAlternatives(n->Child.Left, suffix && hasZeroLengthMatch(n->Child.Right));
+    dropUnreachableAlternatives(n->Child.Right, suffix);
+    break;
+
+  case ParseNode::ALTERNATION:
+    dropUnreachableAlternatives(n->Child.Left, suffix);
+    dropUnreachableAlternatives(n->Child.Right, suffix);
+    if (suffix && has_only_zero_length_match(n->Child.Left)) {
+      n->Child.Right = n->Child.Left;
+    }
+    break;
+
+  default:
+    // branch finished
+    break;
+  }
+}
+
 bool reduceEmptySubtrees(ParseNode* n, std::stack<ParseNode*>& branch) {
 
   // ST{0}Q = ST{0}?Q = T{0}QS = T{0}?Q = S
-  // R(S{0}Q|T) = (S{0}Q|T)R = R
+  // (S{0}Q|T) = T??
   // (S|T{0}Q) = S?
 
   bool ret = false;
@@ -246,7 +278,14 @@ bool reduceEmptySubtrees(ParseNode* n, std::stack<ParseNode*>& branch) {
     }
   }
   else if (n->Type == ParseNode::ALTERNATION) {
-    if (has_only_zero_length_match(n->Child.Right)) {
+    if (has_only_zero_length_match(n->Child.Left)) {
+      // convert T{0}|S into S??
+      n->Child.Left = n->Child.Right;
+      n->setType(ParseNode::REPETITION_NG);
+      n->Child.Rep.Min = 0;
+      n->Child.Rep.Max = 1;
+    }
+    else if (has_only_zero_length_match(n->Child.Right)) {
       // convert S|T{0} into S?
       n->setType(ParseNode::REPETITION);
       n->Child.Rep.Min = 0;
@@ -258,6 +297,8 @@ bool reduceEmptySubtrees(ParseNode* n, std::stack<ParseNode*>& branch) {
 }
 
 bool reduceEmptySubtrees(ParseNode* root) {
+  dropUnreachableAlternatives(root, true);
+
   std::stack<ParseNode*> branch;
   return reduceEmptySubtrees(root, branch);
 }
-- 
2.43.0


From 27d9f9315e7978e3507cffefc8930e6ca1be3a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:13 +0000
Subject: [PATCH 04/38] fix: do not combine non-greedy then greedy within
 repeated bodies

As for reduceTrailingNongreedyThenEmpty, the body of S{n,...} with n > 1 is
not in suffix position: (ab*?b){2} must not become (ab){2}, which failed to
match 'abbab'.
---
 src/lib/rewriter.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib/rewriter.cpp b/src/lib/rewriter.cpp
index 64015d9..c7378f1 100644
--- a/src/lib/rewriter.cpp
+++ b/src/lib/rewriter.cpp
@@ -549,9 +549,16 @@ bool reduceTrailingNongreedyThenGreedy(ParseNode* n, std::stack<ParseNode*>& bra
   case ParseNode::LOOKBEHIND_NEG:
   case ParseNode::LOOKAHEAD_POS:
   case ParseNode::LOOKAHEAD_NEG:
+    ret = reduceTrailingNongreedyThenGreedy(n->Child.Left, branch);
+    break;
+
   case ParseNode::REPETITION:
   case ParseNode::REPETITION_NG:
-    ret = reduceTrailingNongreedyThenGreedy(n->Child.Left, branch);
+    // S is not a suffix in S{n,m} when n > 1, as at least one more S must
+    // follow all but the last of the n mandatory ones
+    if (n->Child.Rep.Min <= 1) {
+      ret = reduceTrailingNongreedyThenGreedy(n->Child.Left, branch);
+    }
     break;
 
   case ParseNode::ALTERNATION:
-- 
2.43.0


From e644c34d80fbf7805d3673b9f591dd2aa05f3ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:32 +0000
Subject: [PATCH 05/38] fix: an empty iteration ends a loop rather than
 continuing it

The back edges of a loop over a fragment which admits a zero-length match
ignored the priority of that match, so (a*|b)*b on 'abb' reported 0-3 where
backtracking semantics give 0-2 (the second iteration is empty, which ends
the loop).
---
 src/lib/nfabuilder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/nfabuilder.cpp b/src/lib/nfabuilder.cpp
index a3d6878..a0a8852 100644
--- a/src/lib/nfabuilder.cpp
+++ b/src/lib/nfabuilder.cpp
@@ -315,8 +315,10 @@ void NFABuilder::plus(const ParseNode& n) {
   Fragment& repeat = Stack.top();
   repeat.N = n;
 
-  // make back edges
-  patch_pre(repeat.OutList, repeat.InList);
+  // make back edges; if the repeated fragment admits a zero-length match, an
+  // empty iteration ends the loop, so the way out of the loop has the priority
+  // which the zero-length match has within the fragment
+  patch_mid(repeat.OutList, repeat.InList, repeat.Skippable);
 }
 
 void NFABuilder::plus_ng(const ParseNode& n) {
-- 
2.43.0


From 4342601de8b2351470bfe2323aafd55355f22ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:17 +0000
Subject: [PATCH 06/38] fix: let the parser's stack grow

YYSTYPE_IS_TRIVIAL was not defined, so bison's stack stayed at YYINITDEPTH
and a pattern with groups nested 100 deep was rejected as 'repetition of
non-atom'.
---
 src/lib/re_grammar.ypp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/re_grammar.ypp b/src/lib/re_grammar.ypp
index a1365c0..9f26522 100644
--- a/src/lib/re_grammar.ypp
+++ b/src/lib/re_grammar.ypp
@@ -86,6 +86,9 @@ namespace {
 #define YYLTYPE_IS_DECLARED 1
 #define YYLTYPE_IS_TRIVIAL 1
 
+// the parser's stacks can't grow unless both of these are trivial
+#define YYSTYPE_IS_TRIVIAL 1
+
 #define YYDEBUG 0
 
 #if YYDEBUG
-- 
2.43.0


From 8456333dfaec4cdc79ee461c292c6f21e13a054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:47 +0000
Subject: [PATCH 07/38] fix: reject repetition bounds which overflow

a{4294967297} was silently taken to be a{1}, since the bound wrapped.
---
 src/lib/re_grammar.ypp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lib/re_grammar.ypp b/src/lib/re_grammar.ypp
index 9f26522..da0d5b3 100644
--- a/src/lib/re_grammar.ypp
+++ b/src/lib/re_grammar.ypp
@@ -7,6 +7,7 @@
 #include "encoders/utf8.h"
 
 #include <iomanip>
+#include <limits>
 #include <sstream>
 #include <stack>
 #include <string>
@@ -53,6 +54,7 @@ namespace {
     enum {
       NONATOMIC_REPETITON,
       REVERSED_REPETITION_BOUNDS,
+      REPETITION_BOUND_TOO_LARGE,
       INVALID_ESCAPE,
       UNMATCHED_PARENTHESIS,
       UNMATCHED_BRACKET,
@@ -299,8 +301,19 @@ number:
   }
 | number DIGIT
   {
+    const int digit = $2 - 48;
+
     $$ = $1;
-    $$->Val = $$->Val*10 + ($2 - 48);
+    if ($$->Val > (std::numeric_limits<int>::max() - digit)/10) {
+      throwError(
+        {
+          ParseError::REPETITION_BOUND_TOO_LARGE,
+          @1.first_column, @2.last_column
+        },
+        ctx
+      );
+    }
+    $$->Val = $$->Val*10 + digit;
   }
 ;
 
@@ -1463,6 +1476,9 @@ namespace {
     case ParseError::REVERSED_REPETITION_BOUNDS:
       ss << e.First << " > " << e.Second << " in ";
       break;
+    case ParseError::REPETITION_BOUND_TOO_LARGE:
+      ss << "repetition bound too large ";
+      break;
     case ParseError::INVALID_ESCAPE:
       ss << "invalid escape ";
       break;
-- 
2.43.0


From d2d6f1a96a245c7bcd25b751a397ded6a8ae38a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:40 +0000
Subject: [PATCH 08/38] fix: start lg_starts_with from a reset context

---
 include/vm.h   |  2 ++
 src/lib/vm.cpp | 11 ++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/vm.h b/include/vm.h
index 26186ad..9422103 100644
--- a/include/vm.h
+++ b/include/vm.h
@@ -126,6 +126,8 @@ private:
   std::vector<uint64_t> MatchEnds;
   uint64_t MatchEndsMax;
 
+  bool Clean; // true iff nothing has been searched since the last reset
+
   HitCallback CurHitFn;
   void* UserData;
 };
diff --git a/src/lib/vm.cpp b/src/lib/vm.cpp
index 7688743..3ee4541 100644
--- a/src/lib/vm.cpp
+++ b/src/lib/vm.cpp
@@ -125,7 +125,7 @@ Vm::Vm(ProgramPtr prog):
   First(), Active(1, &(*prog)[0]), Next(),
   CheckLabels(prog->MaxCheck+1),
   LiveNoLabel(false), Live(prog->MaxLabel+1),
-  MatchEnds(prog->MaxLabel+1), MatchEndsMax(0),
+  MatchEnds(prog->MaxLabel+1), MatchEndsMax(0), Clean(false),
   CurHitFn(nullptr), UserData(nullptr)
 {
 // FIXME: should do these checks inside SparseSet::resize()?
@@ -173,6 +173,8 @@ void Vm::reset() {
 
   CurHitFn = nullptr;
 
+  Clean = true;
+
   #ifdef LBT_TRACE_ENABLED
   NextId = 1;
   #endif
@@ -519,6 +521,7 @@ bool Vm::executeEpsilon(ThreadList::iterator t, uint64_t offset) {
 }
 
 void Vm::executeFrame(const byte* const cur, uint64_t offset, HitCallback hitFn, void* userData) {
+  Clean = false;
   CurHitFn = hitFn;
   UserData = userData;
   ThreadList::iterator t = Active.begin();
@@ -526,6 +529,11 @@ void Vm::executeFrame(const byte* const cur, uint64_t offset, HitCallback hitFn,
 }
 
 void Vm::startsWith(const byte* const beg, const byte* const end, const uint64_t startOffset, HitCallback hitFn, void* userData) {
+  // nothing left over from an earlier search may affect this one
+  if (!Clean) {
+    reset();
+  }
+
   CurHitFn = hitFn;
   UserData = userData;
   const Instruction* const base = &(*Prog)[0];
@@ -573,6 +581,7 @@ uint64_t Vm::_startOfLeftmostLiveThread(const uint64_t offset) const {
 }
 
 uint64_t Vm::search(const byte* const beg, const byte* const end, const uint64_t startOffset, HitCallback hitFn, void* userData) {
+  Clean = false;
   CurHitFn = hitFn;
   UserData = userData;
   const Instruction* const base = &(*Prog)[0];
-- 
2.43.0


From 0d9a71e5867184a23aaba7f8be90f08632ea2cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:36 +0000
Subject: [PATCH 09/38] fix: give a jump table with a single byte value its
 proper size

---
 src/lib/compiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/compiler.cpp b/src/lib/compiler.cpp
index 8102def..8e1f57b 100644
--- a/src/lib/compiler.cpp
+++ b/src/lib/compiler.cpp
@@ -42,7 +42,7 @@ std::tuple<uint32_t, uint32_t> minAndMaxValues(const std::vector<std::vector<NFA
 
   for (uint32_t i = 0; i < 256; ++i) {
     if (!tbl[i].empty()) {
-      first = i;
+      first = last = i;
       break;
     }
   }
-- 
2.43.0


From 8ded66cfc10cefb1c25c6ce137fdaf14207bfbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:36 +0000
Subject: [PATCH 10/38] fix: let an FSM be used after a program is made from it

---
 include/fsmthingy.h         |  2 +-
 src/lib/fsmthingy.cpp       | 19 +++++++++++++------
 src/lib/lightgrep_c_api.cpp |  4 ++--
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/fsmthingy.h b/include/fsmthingy.h
index 8cf92d1..c67a112 100644
--- a/include/fsmthingy.h
+++ b/include/fsmthingy.h
@@ -35,5 +35,5 @@ public:
 
   void addPattern(const ParseTree& tree, const char* chain, uint32_t label);
 
-  void finalizeGraph(uint32_t determinizeDepth);
+  NFAPtr finalizeGraph(uint32_t determinizeDepth);
 };
diff --git a/src/lib/fsmthingy.cpp b/src/lib/fsmthingy.cpp
index fc40f42..2a0309d 100644
--- a/src/lib/fsmthingy.cpp
+++ b/src/lib/fsmthingy.cpp
@@ -45,17 +45,24 @@ void FSMThingy::addPattern(const ParseTree& tree, const char* chain, uint32_t la
   }
 }
 
-void FSMThingy::finalizeGraph(uint32_t determinizeDepth) {
+NFAPtr FSMThingy::finalizeGraph(uint32_t determinizeDepth) {
   if (Fsm->verticesSize() < 2) {
     throw std::runtime_error("No valid patterns were parsed");
   }
 
+  // Fsm is left as it is, so that further patterns may be added to it and
+  // further programs made from it
+  NFAPtr g;
+
   if (determinizeDepth && !Fsm->Deterministic) {
-    NFAPtr dfa(new NFA(1, 2 * Fsm->verticesSize(), Fsm->edgesSize()));
-    dfa->TransFac = Fsm->TransFac;
-    Comp.subsetDFA(*dfa, *Fsm, determinizeDepth);
-    Fsm = dfa;
+    g.reset(new NFA(1, 2 * Fsm->verticesSize(), Fsm->edgesSize()));
+    g->TransFac = Fsm->TransFac;
+    Comp.subsetDFA(*g, *Fsm, determinizeDepth);
+  }
+  else {
+    g.reset(new NFA(*Fsm));
   }
 
-  Comp.labelGuardStates(*Fsm);
+  Comp.labelGuardStates(*g);
+  return g;
 }
diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index cefa0d9..ce6e535 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -365,10 +365,10 @@ namespace {
       lg_destroy_program
     );
 
-    hFsm->Impl->finalizeGraph(opts->DeterminizeDepth);
+    const NFAPtr graph = hFsm->Impl->finalizeGraph(opts->DeterminizeDepth);
 
     hProg->PMap = hFsm->PMap;
-    hProg->Prog = Compiler::createProgram(*hFsm->Impl->Fsm);
+    hProg->Prog = Compiler::createProgram(*graph);
 
     return hProg.release();
   }
-- 
2.43.0


From 42f60fe09e4e4b2f941d8b34b09a7d6ce4357275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 11/38] fix: let --, && and ~~ be two characters outside a
 character class

---
 src/lib/re_grammar.ypp | 59 ++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/src/lib/re_grammar.ypp b/src/lib/re_grammar.ypp
index da0d5b3..a3c3d41 100644
--- a/src/lib/re_grammar.ypp
+++ b/src/lib/re_grammar.ypp
@@ -28,6 +28,9 @@ namespace {
     bool LiteralMode;
     std::stack<uint8_t> Opts;
 
+    int ClassDepth;  // number of character classes we are inside of
+    bool ClassStart; // have we just entered a character class?
+
     template <class... Args>
     ParseNode* add(Args&&... args) {
       return Tree->add(std::forward<Args>(args)...);
@@ -464,27 +467,6 @@ literal:
   {
     $$ = ctx->add(ParseNode::DOT, '.');
   }
-| HYPHEN_HYPHEN
-  {
-    // This special case exists because -- is the set minus operator inside
-    // character classes. Parsing -- together helps disambiguate set minus
-    // from ranges. Here, outside of a char class, -- is just two hyphens.
-    ParseNode* l = ctx->add(ParseNode::LITERAL, '-');
-    ParseNode* r = ctx->add(ParseNode::LITERAL, '-');
-    $$ = ctx->add(ParseNode::CONCATENATION, l, r);
-  }
-| AMP_AMP
-  {
-    ParseNode* l = ctx->add(ParseNode::LITERAL, '&');
-    ParseNode* r = ctx->add(ParseNode::LITERAL, '&');
-    $$ = ctx->add(ParseNode::CONCATENATION, l, r);
-  }
-| TILDE_TILDE
-  {
-    ParseNode* l = ctx->add(ParseNode::LITERAL, '~');
-    ParseNode* r = ctx->add(ParseNode::LITERAL, '~');
-    $$ = ctx->add(ParseNode::CONCATENATION, l, r);
-  }
 | charclass
 ;
 
@@ -1316,6 +1298,9 @@ namespace {
 
     ctx->TokenType = -1;  // EOF
 
+    const bool classStart = ctx->ClassStart;
+    ctx->ClassStart = false;
+
     if (ctx->Text < ctx->TextEnd) {
       const int c = *ctx->Text++;
       yylloc->last_column = yylloc->first_column + 1;
@@ -1339,8 +1324,6 @@ namespace {
         case '+':
         case '*':
         case '.':
-        case '[':
-        case ']':
         case '^':
         case '$':
         case '{':
@@ -1351,8 +1334,20 @@ namespace {
         case '!':
           ctx->TokenType = c;
           break;
+        case '[':
+          ++ctx->ClassDepth;
+          ctx->ClassStart = true;
+          ctx->TokenType = c;
+          break;
+        case ']':
+          // a right bracket is a literal at the start of a character class
+          if (ctx->ClassDepth > 0 && !classStart) {
+            --ctx->ClassDepth;
+          }
+          ctx->TokenType = c;
+          break;
         case '&':
-          if (ctx->Text < ctx->TextEnd && *ctx->Text == '&') {
+          if (ctx->ClassDepth > 0 && ctx->Text < ctx->TextEnd && *ctx->Text == '&') {
               // give the parser a hint that this amp might be an intersection
               yylloc->last_column = ++ctx->Text - ctx->TextBegin;
               ctx->TokenType = AMP_AMP;
@@ -1364,7 +1359,7 @@ namespace {
           }
           break;
         case '~':
-          if (ctx->Text < ctx->TextEnd && *ctx->Text == '~') {
+          if (ctx->ClassDepth > 0 && ctx->Text < ctx->TextEnd && *ctx->Text == '~') {
             // give the parser a hint that this tilde might be an XOR
             yylloc->last_column = ++ctx->Text - ctx->TextBegin;
             ctx->TokenType = TILDE_TILDE;
@@ -1384,9 +1379,15 @@ namespace {
               ctx->TokenType = CHAR;
               break;
             case '-':
-              // give the parser a hint that this hypen might be a minus
-              yylloc->last_column = ++ctx->Text - ctx->TextBegin;
-              ctx->TokenType = HYPHEN_HYPHEN;
+              if (ctx->ClassDepth > 0) {
+                // give the parser a hint that this hypen might be a minus
+                yylloc->last_column = ++ctx->Text - ctx->TextBegin;
+                ctx->TokenType = HYPHEN_HYPHEN;
+              }
+              else {
+                // outside of a character class, -- is just two hyphens
+                ctx->TokenType = '-';
+              }
               break;
             default:
               // this hyphen might be a range operator if inside a cc
@@ -1527,6 +1528,8 @@ bool parse(const Pattern& p, ParseTree& tree) {
   Context ctx;
 
   ctx.LiteralMode = p.FixedString;
+  ctx.ClassDepth = 0;
+  ctx.ClassStart = false;
   ctx.Opts.push(
     (p.CaseInsensitive ? 0 : CASED_MASK) |
     (p.UnicodeMode ? 0 : ASCII_MASK)
-- 
2.43.0


From 1b98bb2ed1895d486185082d836e181ada051597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:51 +0000
Subject: [PATCH 12/38] fix: report an empty pattern as unparsable instead of
 crashing

---
 src/lib/re_grammar.ypp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/re_grammar.ypp b/src/lib/re_grammar.ypp
index a3c3d41..03db567 100644
--- a/src/lib/re_grammar.ypp
+++ b/src/lib/re_grammar.ypp
@@ -1294,7 +1294,7 @@ namespace {
   }
 
   int yylex(YYSTYPE* yylval, YYLTYPE* yylloc, Context* ctx) {
-    yylloc->first_column = ctx->Text - ctx->TextBegin;
+    yylloc->first_column = yylloc->last_column = ctx->Text - ctx->TextBegin;
 
     ctx->TokenType = -1;  // EOF
 
-- 
2.43.0


From db83e2cdbc3670bd0574743186ad13e4cd38a94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:18 +0000
Subject: [PATCH 13/38] fix: refuse to add a handle which holds no pattern

---
 include/parsetree.h         | 2 +-
 src/lib/lightgrep_c_api.cpp | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/parsetree.h b/include/parsetree.h
index 89a0b4d..abbcc5e 100644
--- a/include/parsetree.h
+++ b/include/parsetree.h
@@ -28,7 +28,7 @@ uint32_t nodesUpperBound(const std::string& expr);
 
 class ParseTree {
 public:
-  ParseNode* Root;
+  ParseNode* Root = nullptr;
 
   template <class... Args>
   ParseNode* add(Args&&... args) {
diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index ce6e535..048cac0 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -102,6 +102,8 @@ int lg_parse_pattern_slice(LG_HPATTERN hPattern,
 
   int result = trapWithVals([hPattern](){ parseAndReduce(hPattern->Pat, hPattern->Tree); }, 1, 0, err);
   if (result == 0) {
+    // what was parsed before the failure is not a pattern
+    hPattern->Tree.Root = nullptr;
     (*err)->Pattern = clone_c_str(pattern);
   }
 
@@ -147,6 +149,10 @@ void lg_destroy_fsm(LG_HFSM hFsm) {
 
 namespace {
   int addPattern(LG_HFSM hFsm, LG_HPATTERN hPattern, const char* encoding, uint64_t userIndex) {
+    if (!hPattern->Tree.Root) {
+      throw std::runtime_error("No pattern was parsed");
+    }
+
     const uint32_t label = hFsm->PMap->count();
     hFsm->Impl->addPattern(hPattern->Tree, encoding, label);
 
-- 
2.43.0


From 562eaf8f80109d18579ef034f8cc812edbfa921d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:18 +0000
Subject: [PATCH 14/38] fix: allow the error parameter to be null when parsing
 or adding fails

---
 src/lib/lightgrep_c_api.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index 048cac0..279f399 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -104,7 +104,10 @@ int lg_parse_pattern_slice(LG_HPATTERN hPattern,
   if (result == 0) {
     // what was parsed before the failure is not a pattern
     hPattern->Tree.Root = nullptr;
-    (*err)->Pattern = clone_c_str(pattern);
+
+    if (err && *err) {
+      (*err)->Pattern = clone_c_str(hPattern->Pat.Expression.c_str());
+    }
   }
 
   return result;
@@ -192,7 +195,7 @@ int lg_add_pattern(LG_HFSM hFsm,
     err
   );
 
-  if (result == -1) {
+  if (result == -1 && err && *err) {
     (*err)->Pattern = clone_c_str(hPattern->Pat.Expression.c_str());
     (*err)->EncodingChain = clone_c_str(encoding);
   }
-- 
2.43.0


From a9c9114609137d6a9f90dca70d0477ecdfa58700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:26 +0000
Subject: [PATCH 15/38] fix: do not read beyond a UTF-8 sequence cut short by
 the end of the pattern

---
 include/unicode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/unicode.h b/include/unicode.h
index 47bfe35..9ad5adb 100644
--- a/include/unicode.h
+++ b/include/unicode.h
@@ -24,7 +24,7 @@
 #define CONTINUATION(cp, i, end, used) \
   if (++i == end) { \
     cp = -1; \
-    return used; \
+    return used - 1; \
   } \
   b = *i & 0xFF; \
   if (b < 0x80 || 0xBF < b) { \
-- 
2.43.0


From ef3d6574c67153fe323a8a146243a70842b41ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:36 +0000
Subject: [PATCH 16/38] fix: bad-value count of a window without leading
 context

---
 src/lib/lightgrep_c_util.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/lightgrep_c_util.cpp b/src/lib/lightgrep_c_util.cpp
index 8282f2b..2fca32c 100644
--- a/src/lib/lightgrep_c_util.cpp
+++ b/src/lib/lightgrep_c_util.cpp
@@ -121,7 +121,7 @@ namespace {
     //
     // leading context
     //
-    unsigned int max_adj_good = 0, max_inv_bad = 0;
+    unsigned int max_adj_good = 0, max_inv_bad = 0, leading_bad = 0;
     std::vector<std::pair<int32_t,const byte*>> lctx;
 
     // Decode leading sequences of increasing length until we hit the
@@ -161,6 +161,7 @@ namespace {
         // this leading context is not worse than the previous best, keep it
         max_adj_good = adj_good;
         max_inv_bad = inv_bad;
+        leading_bad = bad;
         cps.assign(
           lctx.size() > leading ? lctx.end() - leading : lctx.begin(),
           lctx.end()
@@ -168,7 +169,8 @@ namespace {
       }
     }
 
-    bad = std::numeric_limits<unsigned int>::max() - max_inv_bad;
+    // there might be no leading context at all
+    bad = leading_bad;
 
     //
     // hit
-- 
2.43.0


From c9d4c67b7d5f9a388f2abf3330ac8198b86f81fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:36 +0000
Subject: [PATCH 17/38] fix: trailing context after a hit which ends within a
 character

---
 src/lib/lightgrep_c_util.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/lightgrep_c_util.cpp b/src/lib/lightgrep_c_util.cpp
index 2fca32c..fec7f69 100644
--- a/src/lib/lightgrep_c_util.cpp
+++ b/src/lib/lightgrep_c_util.cpp
@@ -177,7 +177,13 @@ namespace {
     //
     dh.begin = cps.size();
 
-    dec.reset(hbeg, std::min(hend + trailing*dec.maxByteLength(), bend));
+    // the last character of the hit might extend past its end, so allow for
+    // one more character than the trailing context needs
+    const size_t avail = bend - hend, mbl = dec.maxByteLength();
+    const size_t tlen = trailing == 0 ? 0 :
+      (trailing < avail / mbl ? (trailing + 1) * mbl : avail);
+
+    dec.reset(hbeg, hend + std::min(tlen, avail));
 
     while ((cp = dec.next()).second < hend) {
       cps.push_back(cp);
-- 
2.43.0


From 9758738cff3f3ffbda32958e6fc970e3abcaefbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:36 +0000
Subject: [PATCH 18/38] fix: lg_add_pattern_list reported failure for lists
 without errors and lost errors

With a non-null error pointer, lg_add_pattern_list returned -1 even when
every pattern was added; with a null one, it crashed. A malformed option
column discarded all earlier errors and all later lines. Errors from
parsing and adding patterns had no Source.
---
 src/lib/lightgrep_c_api.cpp | 93 +++++++++++++++++++++++++------------
 1 file changed, 64 insertions(+), 29 deletions(-)

diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index 279f399..e1b4583 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -204,6 +204,39 @@ int lg_add_pattern(LG_HFSM hFsm,
 }
 
 namespace {
+  // a list of errors, each given the source and line it came from
+  class ErrorList {
+  public:
+    ErrorList(const char* source): Source(source), Head(nullptr, lg_free_error), Tail(nullptr) {}
+
+    bool add(LG_Error* e, int lnum) {
+      if (e) {
+        if (!e->Source && Source) {
+          e->Source = clone_c_str(Source);
+        }
+        e->Index = lnum;
+
+        if (Head) {
+          Tail->Next = e;
+        }
+        else {
+          Head.reset(e);
+        }
+        Tail = e;
+      }
+      return e != nullptr;
+    }
+
+    bool empty() const { return !Head; }
+
+    LG_Error* release() { return Head.release(); }
+
+  private:
+    const char* Source;
+    std::unique_ptr<LG_Error,void(*)(LG_Error*)> Head;
+    LG_Error* Tail;
+  };
+
   template <class E>
   void addPatternHelper(LG_HFSM hFsm,
                   LG_HPATTERN hPat,
@@ -211,22 +244,18 @@ namespace {
                   LG_KeyOptions* keyOpts,
                   const E& encodings,
                   int lnum,
-                  LG_Error**& err)
+                  ErrorList& errors)
   {
-    lg_parse_pattern(hPat, pat.c_str(), keyOpts, err);
-    if (*err) {
-      (*err)->Index = lnum;
-      err = &((*err)->Next);
+    LG_Error* err = nullptr;
+    lg_parse_pattern(hPat, pat.c_str(), keyOpts, &err);
+    if (errors.add(err, lnum)) {
       return;
     }
 
     for (const std::string& enc : encodings) {
-      lg_add_pattern(hFsm, hPat, enc.c_str(), lnum, err);
-      if (*err) {
-        (*err)->Index = lnum;
-        err = &((*err)->Next);
-        continue;
-      }
+      err = nullptr;
+      lg_add_pattern(hFsm, hPat, enc.c_str(), lnum, &err);
+      errors.add(err, lnum);
     }
   }
 
@@ -251,6 +280,8 @@ namespace {
     typedef boost::tokenizer<char_separator, const char*> cstr_tokenizer;
     typedef boost::tokenizer<char_separator> tokenizer;
 
+    ErrorList errors(source);
+
     // read each pattern line
     const cstr_tokenizer ltok(
       patterns, patterns + std::strlen(patterns), char_separator("\r\n")
@@ -265,10 +296,7 @@ namespace {
       const tokenizer::const_iterator cend(ctok.end());
 
       if (ccur == cend) { // FIXME: is this possible?
-        if (err) {
-          *err = makeError("no pattern", nullptr, nullptr, source, lnum);
-          err = &((*err)->Next);
-        }
+        errors.add(makeError("no pattern"), lnum);
         continue;
       }
 
@@ -283,36 +311,43 @@ namespace {
         const tokenizer etok(el, char_separator(","));
 
         if (etok.begin() == etok.end()) {
-          if (err) {
-            *err = makeError(
-              "no encoding list",
-              pat.c_str(), nullptr, source, lnum
-            );
-            err = &((*err)->Next);
-          }
+          errors.add(makeError("no encoding list", pat.c_str()), lnum);
           continue;
         }
 
         // read the options
-        if (++ccur != cend) {
-          opts.FixedString = boost::lexical_cast<bool>(*ccur);
+        try {
           if (++ccur != cend) {
-            opts.CaseInsensitive = boost::lexical_cast<bool>(*ccur);
+            opts.FixedString = boost::lexical_cast<bool>(*ccur);
             if (++ccur != cend) {
-              opts.UnicodeMode = boost::lexical_cast<bool>(*ccur);
+              opts.CaseInsensitive = boost::lexical_cast<bool>(*ccur);
+              if (++ccur != cend) {
+                opts.UnicodeMode = boost::lexical_cast<bool>(*ccur);
+              }
             }
           }
         }
+        catch (const boost::bad_lexical_cast&) {
+          errors.add(makeError("bad option, must be 0 or 1", pat.c_str()), lnum);
+          continue;
+        }
 
-        addPatternHelper(hFsm, ph.get(), pat, &opts, etok, lnum, err);
+        addPatternHelper(hFsm, ph.get(), pat, &opts, etok, lnum, errors);
       }
       else {
         // use default encodings and options
-        addPatternHelper(hFsm, ph.get(), pat, &opts, defEncs, lnum, err);
+        addPatternHelper(hFsm, ph.get(), pat, &opts, defEncs, lnum, errors);
       }
     }
 
-    return err ? -1 : 0;
+    if (errors.empty()) {
+      return 0;
+    }
+
+    if (err) {
+      *err = errors.release();
+    }
+    return -1;
   }
 }
 
-- 
2.43.0


From 930059a127fac1c3cff8d558987e40b178034828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:24 +0000
Subject: [PATCH 19/38] fix: a program read from --program-file was used after
 its buffer was freed

---
 src/cmd/main.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/cmd/main.cpp b/src/cmd/main.cpp
index 50fa9e1..cc5272a 100644
--- a/src/cmd/main.cpp
+++ b/src/cmd/main.cpp
@@ -155,7 +155,9 @@ void searchRecursively(
 }
 
 std::unique_ptr<ProgramHandle, void(*)(ProgramHandle*)>
-loadProgram(const std::string& pfile) {
+loadProgram(const std::string& pfile, std::vector<char>& buf) {
+  // NB: the program refers to buf, which must outlive it
+
   std::ifstream pin(pfile, std::ios::in | std::ios::binary);
   if (!pin) {
     std::cerr << "Could not open program file " << pfile << std::endl;
@@ -169,12 +171,12 @@ loadProgram(const std::string& pfile) {
   const std::streampos end = stream_size(pin);
   std::cerr << "program file is " << end << " bytes long" << std::endl;
 
-  std::vector<char> buf(end);
-  pin.read(&buf[0], end);
+  buf.resize(end);
+  pin.read(buf.data(), end);
   pin.close();
 
   return std::unique_ptr<ProgramHandle, void(*)(ProgramHandle*)>(
-    lg_read_program(&buf[0], end),
+    lg_read_program(buf.data(), end),
     lg_destroy_program
   );
 }
@@ -290,11 +292,12 @@ void searchInputs(
 }
 
 void search(const Options& opts) {
+  std::vector<char> progBuf;
   std::unique_ptr<ProgramHandle, void(*)(ProgramHandle*)> prog(nullptr, nullptr);
 
   if (!opts.ProgramFile.empty()) {
     // read a program in from file
-    prog = loadProgram(opts.ProgramFile);
+    prog = loadProgram(opts.ProgramFile, progBuf);
   }
   else {
     LgAppCollection col = parsePatterns(opts);
-- 
2.43.0


From dfbb4afd0f4dc13e7729a60a3ac5ffecd8e0f445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:24 +0000
Subject: [PATCH 20/38] fix: the validate command returned 0 even if patterns
 could not be parsed

---
 src/cmd/main.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cmd/main.cpp b/src/cmd/main.cpp
index cc5272a..0eed273 100644
--- a/src/cmd/main.cpp
+++ b/src/cmd/main.cpp
@@ -425,11 +425,12 @@ void writeGraphviz(const Options& opts) {
   writeGraphviz(opts.openOutput(), *fsm->Impl->Fsm);
 }
 
-void validate(const Options& opts) {
+bool validate(const Options& opts) {
   LgAppCollection col = parsePatterns(opts);
 
   const bool printFilename = opts.CmdLinePatterns.empty() && opts.KeyFiles.size() > 1;
   col.errors->outputErrors(std::cerr, printFilename);
+  return !col.errors->Err;
 }
 
 void writeSampleMatches(const Options& opts) {
@@ -499,8 +500,7 @@ int main(int argc, char** argv) {
       writeSampleMatches(opts);
       break;
     case Options::VALIDATE:
-      validate(opts);
-      break;
+      return validate(opts) ? 0 : 1;
     case Options::SHOW_VERSION:
       printVersion(std::cout);
       break;
-- 
2.43.0


From 819960fe261f3bb735b1d946cc934cdbc9fa24d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:24 +0000
Subject: [PATCH 21/38] fix: an empty file stopped a search with --mmap or
 context

---
 include/reader.h   |  2 +-
 src/cmd/reader.cpp | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/reader.h b/include/reader.h
index 78d77b8..798ca1f 100644
--- a/include/reader.h
+++ b/include/reader.h
@@ -57,5 +57,5 @@ private:
   bip::file_mapping M;
   bip::mapped_region R;
   const char* Buf;
-  const char* const Bend;
+  const char* Bend;
 };
diff --git a/src/cmd/reader.cpp b/src/cmd/reader.cpp
index bc7d8b1..c09f9a5 100644
--- a/src/cmd/reader.cpp
+++ b/src/cmd/reader.cpp
@@ -18,6 +18,7 @@
 #include <algorithm>
 #include <cerrno>
 #include <cstring>
+#include <filesystem>
 #include <stdexcept>
 
 #include "reader.h"
@@ -67,10 +68,16 @@ std::future<std::pair<const char*, size_t>> FileReader::read(size_t len){
 }
 
 MemoryMappedFileReader::MemoryMappedFileReader(const std::string& path):
-  M(path.c_str(), bip::read_only), R(M, bip::read_only),
-  Buf(static_cast<const char*>(R.get_address())), Bend(Buf + R.get_size())
+  M(path.c_str(), bip::read_only), Buf(nullptr), Bend(nullptr)
 {
-  R.advise(bip::mapped_region::advice_sequential);
+  // an empty file cannot be mapped
+  std::error_code ec;
+  if (std::filesystem::file_size(path, ec) != 0) {
+    R = bip::mapped_region(M, bip::read_only);
+    R.advise(bip::mapped_region::advice_sequential);
+    Buf = static_cast<const char*>(R.get_address());
+    Bend = Buf + R.get_size();
+  }
 }
 
 std::future<std::pair<const char*, size_t>> MemoryMappedFileReader::read(size_t len) {
-- 
2.43.0


From bbfc280beff47b9f41912d52adabd35d00af8d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:44 +0000
Subject: [PATCH 22/38] fix: --block-size 0 silently searched nothing

---
 src/cmd/optparser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cmd/optparser.cpp b/src/cmd/optparser.cpp
index 72d4f0a..6f0ac61 100644
--- a/src/cmd/optparser.cpp
+++ b/src/cmd/optparser.cpp
@@ -140,6 +140,10 @@ void parse_opts(int argc, const char* const * argv,
   );
   po::notify(optsMap);
 
+  if (opts.BlockSize == 0) {
+    throw po::error("--block-size must be positive");
+  }
+
   //
   // determine which command we got
   //
-- 
2.43.0


From 525745bfa07fff6615d49b36ba9d0b21d9f5ff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:40 +0000
Subject: [PATCH 23/38] fix: searching an empty buffer at a null pointer read
 invalid memory

---
 src/lib/vm.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/vm.cpp b/src/lib/vm.cpp
index 3ee4541..3f0f5c7 100644
--- a/src/lib/vm.cpp
+++ b/src/lib/vm.cpp
@@ -541,7 +541,7 @@ void Vm::startsWith(const byte* const beg, const byte* const end, const uint64_t
 
   const byte* const filterOff = beg+Prog->FilterOff;
 
-  if (end - beg == 1 || (filterOff < end - 1 &&
+  if (end - beg == 1 || (end - beg > ptrdiff_t(Prog->FilterOff) + 1 &&
       Prog->Filter[*(reinterpret_cast<const uint16_t*>(filterOff))]))
   {
     for (ThreadList::const_iterator t(First.begin()); t != First.end(); ++t) {
@@ -587,7 +587,9 @@ uint64_t Vm::search(const byte* const beg, const byte* const end, const uint64_t
   const Instruction* const base = &(*Prog)[0];
 
   const std::bitset<256*256>& filter = Prog->Filter;
-  const byte* const filterEnd = end - Prog->FilterOff - 1;
+  // NB: the buffer may be shorter than the filter's reach, and null if empty
+  const byte* const filterEnd =
+    end - beg > ptrdiff_t(Prog->FilterOff) ? end - Prog->FilterOff - 1 : beg;
 
   uint64_t offset = startOffset;
 
-- 
2.43.0


From 40b712317ab7d10b4f516a968b0282550c5e788a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:13 +0000
Subject: [PATCH 24/38] fix: context and histogram text of hits which reach
 back before the block searched

The text of a hit was taken from the block in which the hit was reported, or
from nothing if it was reported at the end of the input.
---
 include/hitwriter.h          |  5 +++++
 include/reader.h             |  7 +++++++
 src/cmd/searchcontroller.cpp | 35 ++++++++++++++++++++++++++++++++---
 3 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/include/hitwriter.h b/include/hitwriter.h
index 8bc51bb..25b0ef8 100644
--- a/include/hitwriter.h
+++ b/include/hitwriter.h
@@ -147,6 +147,11 @@ public:
   void setPath(const std::string& path) { OutInfo.setPath(path); }
   void setBuffer(const char* buf, size_t blen, uint64_t boff);
 
+  // Is the text of hits, or the text around them, to be output?
+  bool needsText() const {
+    return HistInfo.HistogramEnabled || OutInfo.BeforeContext >= 0 || OutInfo.AfterContext >= 0;
+  }
+
   HitBuffer decodeContext(const LG_SearchHit& searchHit);
 
   void writeHitToHistogram(const LG_SearchHit& hit);
diff --git a/include/reader.h b/include/reader.h
index 798ca1f..fac7536 100644
--- a/include/reader.h
+++ b/include/reader.h
@@ -30,6 +30,9 @@ public:
   virtual ~Reader() {}
 
   virtual std::future<std::pair<const char*, size_t>> read(size_t len) = 0;
+
+  // all there is to read, if it is in memory at once
+  virtual std::pair<const char*, size_t> whole() const { return {nullptr, 0}; }
 };
 
 class FileReader: public Reader {
@@ -53,6 +56,10 @@ public:
 
   virtual std::future<std::pair<const char*, size_t>> read(size_t len) override;
 
+  virtual std::pair<const char*, size_t> whole() const override {
+    return {static_cast<const char*>(R.get_address()), R.get_size()};
+  }
+
 private:
   bip::file_mapping M;
   bip::mapped_region R;
diff --git a/src/cmd/searchcontroller.cpp b/src/cmd/searchcontroller.cpp
index 7f051df..8330a8d 100644
--- a/src/cmd/searchcontroller.cpp
+++ b/src/cmd/searchcontroller.cpp
@@ -21,6 +21,7 @@
 #include <algorithm>
 #include <future>
 #include <iostream>
+#include <string>
 #include <thread>
 #include <utility>
 
@@ -47,18 +48,44 @@ bool SearchController::searchFile(
 
   const char* buf;
 
+  // A hit may begin before the block in which it is reported. Where its text
+  // is needed, keep what was searched from the earliest offset at which a hit
+  // could yet begin, unless everything is in memory anyway.
+  const std::pair<const char*, size_t> whole = reader.whole();
+  const bool keep = !whole.first && hinfo->needsText();
+  std::string kept;
+
   std::tie(buf, blkSize) = reader.read(BlockSize).get();
   while (blkSize) {
     // start getting next block
     std::future<std::pair<const char*, size_t>> fut = reader.read(BlockSize);
 
     // search cur block
-    hinfo->setBuffer(buf, blkSize, offset);
+    if (whole.first) {
+      hinfo->setBuffer(whole.first, whole.second, 0);
+    }
+    else if (!kept.empty()) {
+      kept.append(buf, blkSize);
+      hinfo->setBuffer(kept.data(), kept.size(), offset + blkSize - kept.size());
+    }
+    else {
+      hinfo->setBuffer(buf, blkSize, offset);
+    }
 
-    lg_search(searcher, buf, buf + blkSize, offset, hinfo, callback);
+    const uint64_t least = lg_search(searcher, buf, buf + blkSize, offset, hinfo, callback);
 
     offset += blkSize;
 
+    if (keep) {
+      const uint64_t len = offset - std::min(least, offset);
+      if (len <= blkSize) {
+        kept.assign(buf + blkSize - len, len);
+      }
+      else if (len < kept.size()) {
+        kept.erase(0, kept.size() - len);
+      }
+    }
+
     thisTime = searchClock.elapsed();
     if (thisTime - lastTime > 30.0) {
       print_cumulative_stats(searchClock.elapsed(), offset);
@@ -70,7 +97,9 @@ bool SearchController::searchFile(
 
   // assert: all data has been read, offset + blkSize == file size,
   // cur is last block
-  hinfo->setBuffer(buf, blkSize, offset);
+  if (!whole.first) {
+    hinfo->setBuffer(kept.data(), kept.size(), offset - kept.size());
+  }
 
   lg_search(searcher, buf, buf + blkSize, offset, hinfo, callback);
 
-- 
2.43.0


From 77f759674a447a4ca9fef268707e06afb7dda27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:50 +0000
Subject: [PATCH 25/38] fix: Context.search returned None where the library
 returned 0

---
 pylightgrep/lightgrep/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylightgrep/lightgrep/__init__.py b/pylightgrep/lightgrep/__init__.py
index 8bdc9af..0cb00dd 100644
--- a/pylightgrep/lightgrep/__init__.py
+++ b/pylightgrep/lightgrep/__init__.py
@@ -584,7 +584,7 @@ _LG.lg_reset_context.argtypes = [c_void_p]
 _LG.lg_reset_context.restype = None
 
 _LG.lg_search.argtypes = [c_void_p, POINTER(c_char), POINTER(c_char), c_uint64, py_object, _CBType]
-_LG.lg_search.restype = c_void_p
+_LG.lg_search.restype = c_uint64
 
 _LG.lg_closeout_search.argtypes = [c_void_p, py_object, _CBType]
 _LG.lg_closeout_search.restype = None
-- 
2.43.0


From bd28ec5f3798a9af1651e282b45b9961780f5dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:50 +0000
Subject: [PATCH 26/38] fix: Fsm.add_pattern truncated the user index to 32
 bits

---
 pylightgrep/lightgrep/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylightgrep/lightgrep/__init__.py b/pylightgrep/lightgrep/__init__.py
index 0cb00dd..94975de 100644
--- a/pylightgrep/lightgrep/__init__.py
+++ b/pylightgrep/lightgrep/__init__.py
@@ -538,7 +538,7 @@ _LG.lg_create_fsm.restype = c_void_p
 _LG.lg_destroy_fsm.argtypes = [c_void_p]
 _LG.lg_destroy_fsm.restype = None
 
-_LG.lg_add_pattern.argtypes = [c_void_p, c_void_p, c_char_p, c_int, POINTER(POINTER(Err))]
+_LG.lg_add_pattern.argtypes = [c_void_p, c_void_p, c_char_p, c_uint64, POINTER(POINTER(Err))]
 _LG.lg_add_pattern.restype = c_int
 
 _LG.lg_add_pattern_list.argtypes = [c_void_p, c_char_p, c_char_p, POINTER(c_char_p), c_uint, POINTER(KeyOpts), POINTER(POINTER(Err))]
-- 
2.43.0


From 331c008f5226ee8226874ed270c94d708c2cdb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:50 +0000
Subject: [PATCH 27/38] fix: a Program read from a buffer did not keep the
 buffer alive

---
 pylightgrep/lightgrep/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylightgrep/lightgrep/__init__.py b/pylightgrep/lightgrep/__init__.py
index 94975de..61532e2 100644
--- a/pylightgrep/lightgrep/__init__.py
+++ b/pylightgrep/lightgrep/__init__.py
@@ -361,6 +361,9 @@ class Program(Handle):
 
         super().__init__(handle)
 
+        # a program read from a buffer refers to the buffer
+        self.buf = args[0] if len(args) == 1 else None
+
     @staticmethod
     def from_buffer(buf):
         # unserialize program from a buffer
-- 
2.43.0


From be0e68c383f24424230cf44669b033565e6c9cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:50 +0000
Subject: [PATCH 28/38] fix: the sample command gave more samples than asked
 for

---
 src/lib/matchgen.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/matchgen.cpp b/src/lib/matchgen.cpp
index bb3afbc..c28f3d9 100644
--- a/src/lib/matchgen.cpp
+++ b/src/lib/matchgen.cpp
@@ -93,6 +93,9 @@ void matchgen(const NFA& g, std::set<std::string>& matches,
 
         // report the match
         matches.insert(match);
+        if (matches.size() >= maxMatches) {
+          return;
+        }
 
         // should we try to extend the match?
         if (extend(rng)) {
-- 
2.43.0


From a153c9ba58f7e0692f4612ef6772806e1b6dbdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:58 +0000
Subject: [PATCH 29/38] fix: the Java ProgramHandle.read crashed, and did not
 keep the program's image

---
 src/java/jni/jlightgrep.cpp                   | 20 +++++---------
 .../lightgrep/ContextHandle.java              |  4 +++
 .../lightgrep/ProgramHandle.java              | 27 ++++++++++++++++---
 3 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/java/jni/jlightgrep.cpp b/src/java/jni/jlightgrep.cpp
index 2487c1c..796a629 100644
--- a/src/java/jni/jlightgrep.cpp
+++ b/src/java/jni/jlightgrep.cpp
@@ -593,21 +593,15 @@ JNIEXPORT void JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_wri
   lg_write_program(ptr, buf);
 }
 
-JNIEXPORT jobject JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_readImpl(JNIEnv* env, jclass, jbyteArray buffer, jint offset, jint size) {
+JNIEXPORT jobject JNICALL Java_com_lightboxtechnologies_lightgrep_ProgramHandle_readImpl(JNIEnv* env, jclass, jobject image, jint size) {
   try {
-    LG_HPROGRAM hProg = nullptr;
-
-    {
-      // convert all of the Java objects to C
-      std::unique_ptr<void,std::function<void(void*)>> data(unwrapCrit(env, buffer));
-
-      char* buf = static_cast<char*>(data.get()) + (uint32_t) offset;
+    // convert all of the Java objects to C
+    void* buf = env->GetDirectBufferAddress(image);
 
-      // finally actually do something
-      hProg = lg_read_program(buf, (uint32_t) size);
-      if (!hProg) {
-        throwException(env, programExceptionClassName, "Bad program");
-      }
+    // finally actually do something
+    LG_HPROGRAM hProg = lg_read_program(buf, (uint32_t) size);
+    if (!hProg) {
+      throwException(env, programExceptionClassName, "Bad program");
     }
 
     return makeProgramHandle(env, hProg);
diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java
index 2f98b68..16c2946 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java
@@ -11,6 +11,10 @@ public class ContextHandle extends Handle {
 
   static native void init();
 
+  // The memory which the context's program refers to, if it was read from
+  // a buffer: the context may be in use for longer than the ProgramHandle.
+  ByteBuffer Image;
+
   private ContextHandle(long ptr) {
     super(ptr);
   }
diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java
index 3898e58..1d6ea1c 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java
@@ -1,5 +1,7 @@
 package com.lightboxtechnologies.lightgrep;
 
+import java.nio.ByteBuffer;
+
 import static com.lightboxtechnologies.lightgrep.Throws.*;
 
 public class ProgramHandle extends Handle {
@@ -7,6 +9,15 @@ public class ProgramHandle extends Handle {
     LibraryLoader.init();
   }
 
+  static native void init();
+
+  // The memory which a program read from a buffer refers to
+  private ByteBuffer Image;
+
+  private ProgramHandle(long ptr) {
+    super(ptr);
+  }
+
   /**
    * @throws IndexOutOfBoundsException
    */
@@ -75,10 +86,18 @@ public class ProgramHandle extends Handle {
     throwIfNegative("offset", offset);
     throwIfNegative("size", size);
     throwIfByteArrayTooSmall("buffer", buffer, "offset", offset, "size", size);
-    return readImpl(buffer, offset, size);
+
+    // The program refers to its image for as long as it exists, and an
+    // array could be moved, changed, or collected meanwhile.
+    final ByteBuffer image = ByteBuffer.allocateDirect(size);
+    image.put(buffer, offset, size);
+
+    final ProgramHandle hProg = readImpl(image, size);
+    hProg.Image = image;
+    return hProg;
   }
 
-  private static native ProgramHandle readImpl(byte[] buffer, int offset, int size);
+  private static native ProgramHandle readImpl(ByteBuffer image, int size);
 
   /**
    * @throws IllegalStateException
@@ -139,7 +158,9 @@ public class ProgramHandle extends Handle {
   public ContextHandle createContext(ContextOptions options) {
     throwIfNull("options", options);
     throwIfDestroyed(this);
-    return createContextImpl(options);
+    final ContextHandle hCtx = createContextImpl(options);
+    hCtx.Image = Image;
+    return hCtx;
   }
 
   private native ContextHandle createContextImpl(ContextOptions options);
-- 
2.43.0


From 05995815ad784223a6118f0878a5ff08dcba9f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:58 +0000
Subject: [PATCH 30/38] fix: the Java getHitContext crashed when the decoder
 was destroyed

---
 .../main/java/com/lightboxtechnologies/lightgrep/LGUtil.java    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
index 81166ea..6dc3383 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
@@ -29,6 +29,7 @@ public class LGUtil {
     throwIfNegative("replacement", replacement);
 // TODO: should we require that replacement != 0?
     throwIfGreaterThan("replacement", replacement, 0x10FFFF);
+    throwIfDestroyed(hDec);
 
     return getHitContextImpl(hDec, buffer, offset, size, startOffset, ibegin, iend, encoding, windowSize, replacement);
   }
@@ -49,6 +50,7 @@ public class LGUtil {
     throwIfNegative("replacement", replacement);
 // TODO: should we require that replacement != 0?
     throwIfGreaterThan("replacement", replacement, 0x10FFFF);
+    throwIfDestroyed(hDec);
 
 // FIXME: this code is repeated in several places, factor it out.
     if (buffer.isDirect()) {
-- 
2.43.0


From 33403bb8b0aa9710d5ceb8d61e101abb07f7610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:58 +0000
Subject: [PATCH 31/38] fix: searching a read-only ByteBuffer in Java moved its
 position

---
 .../com/lightboxtechnologies/lightgrep/ContextHandle.java     | 4 ++--
 .../main/java/com/lightboxtechnologies/lightgrep/LGUtil.java  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java
index 16c2946..d74505e 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java
@@ -59,7 +59,7 @@ public class ContextHandle extends Handle {
       else {
         // ugh, this buffer must be read-only
         array = new byte[size];
-        buffer.get(array);
+        buffer.duplicate().get(array);
       }
 
       startsWithImpl(array, position, size, startOffset, callback);
@@ -115,7 +115,7 @@ public class ContextHandle extends Handle {
       else {
         // ugh, this buffer must be read-only
         array = new byte[size];
-        buffer.get(array);
+        buffer.duplicate().get(array);
       }
 
       return searchImpl(array, position, size, startOffset, callback);
diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
index 6dc3383..5c8b62d 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java
@@ -67,7 +67,7 @@ public class LGUtil {
       else {
         // ugh, this buffer must be read-only
         array = new byte[size];
-        buffer.get(array);
+        buffer.duplicate().get(array);
       }
 
       return getHitContextImpl(hDec, array, position, size, startOffset, ibegin, iend, encoding, windowSize, replacement);
-- 
2.43.0


From 756165250fa3dc44ad485154bb80ccc800a1a4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:58 +0000
Subject: [PATCH 32/38] fix: a search in Java kept every hit in memory until it
 returned

---
 src/java/jni/jlightgrep.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/java/jni/jlightgrep.cpp b/src/java/jni/jlightgrep.cpp
index 796a629..6467558 100644
--- a/src/java/jni/jlightgrep.cpp
+++ b/src/java/jni/jlightgrep.cpp
@@ -691,6 +691,9 @@ static void callbackShim(void* userData, const LG_SearchHit* const hit) {
 
   env->CallVoidMethod(cb, hitCallbackCallback, hobj);
   throwIfException(env);
+
+  // otherwise all hits would be kept until the search returns
+  env->DeleteLocalRef(hobj);
 }
 
 static int search(JNIEnv* env, jobject hCtx, const char* buf, jint offset, jint size, jlong startOffset, jobject callback) {
-- 
2.43.0


From c397001945bf8db49b865a056159f7ce04cd96c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:58 +0000
Subject: [PATCH 33/38] fix: characters beyond the BMP in Java patterns and hit
 contexts

---
 src/java/jni/jlightgrep.cpp | 95 ++++++++++++++++++++++++++++---------
 1 file changed, 72 insertions(+), 23 deletions(-)

diff --git a/src/java/jni/jlightgrep.cpp b/src/java/jni/jlightgrep.cpp
index 6467558..667d351 100644
--- a/src/java/jni/jlightgrep.cpp
+++ b/src/java/jni/jlightgrep.cpp
@@ -24,7 +24,9 @@
 #include <limits>
 #include <memory>
 #include <sstream>
+#include <string>
 #include <tuple>
+#include <vector>
 
 static const char ALL_IS_LOST[] = "Fuck it, Dude. Let's go bowling.";
 
@@ -230,20 +232,71 @@ template <typename T> T unwrap(JNIEnv* env, jobject handle) {
 }
 */
 
-static std::unique_ptr<const char,std::function<void(const char*)>> unwrap(JNIEnv* env, jstring str) {
-  using namespace std::placeholders;
+//
+// GetStringUTFChars and NewStringUTF have "modified UTF-8", in which the
+// characters beyond the BMP are not as in UTF-8, so we convert ourselves.
+//
 
-  std::unique_ptr<const char,std::function<void(const char*)>> ptr(
-    env->GetStringUTFChars(str, nullptr),
-    std::bind(&JNIEnv::ReleaseStringUTFChars, env, str, _1)
-  );
+static std::string unwrap(JNIEnv* env, jstring str) {
+  std::vector<jchar> utf16(env->GetStringLength(str));
+  env->GetStringRegion(str, 0, utf16.size(), utf16.data());
+  throwIfException(env);
 
-  if (!ptr) {
-    // OutOfMemoryError already thrown
-    throw PendingJavaException();
+  std::string utf8;
+  for (size_t i = 0; i < utf16.size(); ++i) {
+    uint32_t cp = utf16[i];
+    if (0xD800 <= cp && cp < 0xDC00 && i + 1 < utf16.size() &&
+        0xDC00 <= utf16[i+1] && utf16[i+1] < 0xE000) {
+      cp = 0x10000 + ((cp - 0xD800) << 10) + (utf16[++i] - 0xDC00);
+    }
+
+    if (cp < 0x80) {
+      utf8 += (char) cp;
+    }
+    else if (cp < 0x800) {
+      utf8 += (char) (0xC0 | (cp >> 6));
+      utf8 += (char) (0x80 | (cp & 0x3F));
+    }
+    else if (cp < 0x10000) {
+      utf8 += (char) (0xE0 | (cp >> 12));
+      utf8 += (char) (0x80 | ((cp >> 6) & 0x3F));
+      utf8 += (char) (0x80 | (cp & 0x3F));
+    }
+    else {
+      utf8 += (char) (0xF0 | (cp >> 18));
+      utf8 += (char) (0x80 | ((cp >> 12) & 0x3F));
+      utf8 += (char) (0x80 | ((cp >> 6) & 0x3F));
+      utf8 += (char) (0x80 | (cp & 0x3F));
+    }
   }
+  return utf8;
+}
 
-  return ptr;
+// str must be valid UTF-8, as everything is which liblightgrep gives us
+static jstring makeString(JNIEnv* env, const char* str) {
+  std::vector<jchar> utf16;
+  while (*str) {
+    uint32_t cp = (uint8_t) *str++;
+    int trailing = cp < 0xC0 ? 0 : cp < 0xE0 ? 1 : cp < 0xF0 ? 2 : 3;
+    if (trailing) {
+      cp &= 0x3F >> trailing;
+    }
+    for ( ; trailing && *str; --trailing) {
+      cp = (cp << 6) | (*str++ & 0x3F);
+    }
+
+    if (cp < 0x10000) {
+      utf16.push_back(cp);
+    }
+    else {
+      utf16.push_back(0xD800 + ((cp - 0x10000) >> 10));
+      utf16.push_back(0xDC00 + (cp & 0x3FF));
+    }
+  }
+
+  jstring ret = env->NewString(utf16.data(), utf16.size());
+  throwIfException(env);
+  return ret;
 }
 
 static std::unique_ptr<void,std::function<void(void*)>> unwrapCrit(JNIEnv* env, jbyteArray buffer) {
@@ -310,7 +363,7 @@ JNIEXPORT jint JNICALL Java_com_lightboxtechnologies_lightgrep_PatternHandle_par
 
 // TODO: C++11 stuff.
 
-    std::unique_ptr<const char,std::function<void(const char*)>> pat(unwrap(env, pattern));
+    const std::string pat(unwrap(env, pattern));
 
     LG_KeyOptions opts{
       env->GetBooleanField(options, keyOptionsFixedStringField) != 0,
@@ -321,7 +374,7 @@ JNIEXPORT jint JNICALL Java_com_lightboxtechnologies_lightgrep_PatternHandle_par
     // finally actually do something
     const int ret = lg_parse_pattern(
       ptr,
-      pat.get(),
+      pat.c_str(),
       &opts,
       &err
     );
@@ -366,11 +419,8 @@ static jobject makePatternInfo(JNIEnv* env, LG_PatternInfo* pinfo) {
   jclass cl = env->FindClass(patternInfoClassName);
   throwIfException(env);
 
-  jstring pat = env->NewStringUTF(pinfo->Pattern);
-  throwIfException(env);
-
-  jstring enc = env->NewStringUTF(pinfo->EncodingChain);
-  throwIfException(env);
+  jstring pat = makeString(env, pinfo->Pattern);
+  jstring enc = makeString(env, pinfo->EncodingChain);
 
   jint idx = pinfo->UserIndex;
 
@@ -514,13 +564,13 @@ JNIEXPORT jint JNICALL Java_com_lightboxtechnologies_lightgrep_FSMHandle_addPatt
       env->GetLongField(hPattern, handlePointerField)
     );
 
-    std::unique_ptr<const char,std::function<void(const char*)>> enc(unwrap(env, encoding));
+    const std::string enc(unwrap(env, encoding));
 
     // finally actually do something
     const int ret = lg_add_pattern(
       fsmptr,
       patptr,
-      enc.get(),
+      enc.c_str(),
       idx,
       &err
     );
@@ -812,8 +862,7 @@ static jobject makeHitContext(JNIEnv* env, const LG_Window& outer, const LG_Wind
   jclass cl = env->FindClass(hitContextClassName);
   throwIfException(env);
 
-  jstring decoded = env->NewStringUTF(utf8);
-  throwIfException(env);
+  jstring decoded = makeString(env, utf8);
 
   jobject hc = env->NewObject(
     cl, hitContextCtor, outer.begin, outer.end,
@@ -834,7 +883,7 @@ static jobject getHitContext(JNIEnv* env, jobject hDec, const char* buf, jint of
 
   const LG_Window inner{ (uint64_t) ibegin, (uint64_t) iend };
 
-  std::unique_ptr<const char,std::function<void(const char*)>> enc(unwrap(env, encoding));
+  const std::string enc(unwrap(env, encoding));
 
   LG_Window outer, decodedHit;
   const char* utf8;
@@ -848,7 +897,7 @@ static jobject getHitContext(JNIEnv* env, jobject hDec, const char* buf, jint of
     buf + size,
     (uint64_t) startOffset,
     &inner,
-    enc.get(),
+    enc.c_str(),
     windowSize,
     replacement,
     &utf8,
-- 
2.43.0


From 1a3804c62eb1e4c0b46cabafa410ee032501e3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:06 +0000
Subject: [PATCH 34/38] fix: an anchored search after one whose callback threw
 lost hits

---
 src/lib/vm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/vm.cpp b/src/lib/vm.cpp
index 3f0f5c7..f007d46 100644
--- a/src/lib/vm.cpp
+++ b/src/lib/vm.cpp
@@ -544,6 +544,9 @@ void Vm::startsWith(const byte* const beg, const byte* const end, const uint64_t
   if (end - beg == 1 || (end - beg > ptrdiff_t(Prog->FilterOff) + 1 &&
       Prog->Filter[*(reinterpret_cast<const uint16_t*>(filterOff))]))
   {
+    // a callback might throw, leaving us in the middle of this search
+    Clean = false;
+
     for (ThreadList::const_iterator t(First.begin()); t != First.end(); ++t) {
       Active.emplace_back(t->PC, Thread::NOLABEL, offset, Thread::NONE);
     }
-- 
2.43.0


From fc860d8cf643cfe17e2826abe7cb767ef60f5c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:14 +0000
Subject: [PATCH 35/38] fix: two threads using the Java classes for the first
 time waited for one another forever

---
 .../lightgrep/ContextHandle.java                    |  1 +
 .../com/lightboxtechnologies/lightgrep/Handle.java  |  1 +
 .../lightboxtechnologies/lightgrep/HitContext.java  |  1 +
 .../lightboxtechnologies/lightgrep/KeyOptions.java  |  1 +
 .../lightgrep/LibraryLoader.java                    | 13 ++-----------
 .../lightboxtechnologies/lightgrep/PatternInfo.java |  1 +
 .../lightgrep/ProgramHandle.java                    |  1 +
 .../lightgrep/ProgramOptions.java                   |  1 +
 8 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java
index d74505e..648136b 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java
@@ -7,6 +7,7 @@ import static com.lightboxtechnologies.lightgrep.Throws.*;
 public class ContextHandle extends Handle {
   static {
     LibraryLoader.init();
+    init();
   }
 
   static native void init();
diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/Handle.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/Handle.java
index 25db13b..462640b 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/Handle.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/Handle.java
@@ -3,6 +3,7 @@ package com.lightboxtechnologies.lightgrep;
 abstract class Handle implements AutoCloseable {
   static {
     LibraryLoader.init();
+    init();
   }
 
   static native void init();
diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/HitContext.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/HitContext.java
index 3e00918..f7a87b1 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/HitContext.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/HitContext.java
@@ -3,6 +3,7 @@ package com.lightboxtechnologies.lightgrep;
 public class HitContext {
   static {
     LibraryLoader.init();
+    init();
   }
 
   static native void init();
diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/KeyOptions.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/KeyOptions.java
index 3d4c6ee..8ceaa69 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/KeyOptions.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/KeyOptions.java
@@ -3,6 +3,7 @@ package com.lightboxtechnologies.lightgrep;
 public class KeyOptions {
   static {
     LibraryLoader.init();
+    init();
   }
 
   static native void init();
diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LibraryLoader.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LibraryLoader.java
index b993ab5..d7a9075 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LibraryLoader.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/LibraryLoader.java
@@ -1,18 +1,9 @@
 package com.lightboxtechnologies.lightgrep;
 
 class LibraryLoader {
+  // This must not use any of our classes: two threads each initializing one
+  // of them would wait for one another. Each initializes itself instead.
   static public void init() {
     System.loadLibrary("jlightgrep");
-
-    // Initializiation on the libjlightgrep side.
-    Handle.init();
-    ProgramHandle.init();
-    ContextHandle.init();
-
-    KeyOptions.init();
-    ProgramOptions.init();
-    PatternInfo.init();
-
-    HitContext.init();
   }
 }
diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/PatternInfo.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/PatternInfo.java
index 5920f12..b23a385 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/PatternInfo.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/PatternInfo.java
@@ -5,6 +5,7 @@ import java.util.Arrays;
 public class PatternInfo {
   static {
     LibraryLoader.init();
+    init();
   }
 
   static native void init();
diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java
index 1d6ea1c..114c9fd 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java
@@ -7,6 +7,7 @@ import static com.lightboxtechnologies.lightgrep.Throws.*;
 public class ProgramHandle extends Handle {
   static {
     LibraryLoader.init();
+    init();
   }
 
   static native void init();
diff --git a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramOptions.java b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramOptions.java
index 97da1d0..fbb94fa 100644
--- a/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramOptions.java
+++ b/src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramOptions.java
@@ -3,6 +3,7 @@ package com.lightboxtechnologies.lightgrep;
 public class ProgramOptions {
   static {
     LibraryLoader.init();
+    init();
   }
 
   static native void init();
-- 
2.43.0


From 3266f1762cb1c8b78ea4dfdedd01d300dfd654df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:54 +0000
Subject: [PATCH 36/38] fix: sample printed strings which do not match, or
 never ended, for loops over alternations

---
 src/lib/matchgen.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/matchgen.cpp b/src/lib/matchgen.cpp
index c28f3d9..8941ece 100644
--- a/src/lib/matchgen.cpp
+++ b/src/lib/matchgen.cpp
@@ -151,7 +151,14 @@ void matchgen(const NFA& g, std::set<std::string>& matches,
       if (scount == 0) {
         // backtrack if all successors exhausted
         path.pop_back();
+        if (path.empty()) {
+          break;
+        }
+
+        // v will be put on the path again when it is visited next
         v = path.back();
+        path.pop_back();
+        --seen[v];
       }
       else {
         // otherwise move on to s
-- 
2.43.0


From 640bb20e361cf82ee84d60c96cffceb16faebd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:54 +0000
Subject: [PATCH 37/38] fix: very large -A, -B and -C values lost the context
 and cut the hit

---
 src/cmd/hitwriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmd/hitwriter.cpp b/src/cmd/hitwriter.cpp
index 122056f..e51ea40 100644
--- a/src/cmd/hitwriter.cpp
+++ b/src/cmd/hitwriter.cpp
@@ -29,7 +29,7 @@ const char* find_leading_context(const char* const bbeg, const char* const hbeg,
   const auto lend = std::reverse_iterator<const char*>(bbeg);
 
   auto lnl = lbeg - 1;
-  for (int i = lines + 1; i > 0 && lnl != lend; --i) {
+  for (size_t i = 0; i <= lines && lnl != lend; ++i) {
     lnl = std::find(lnl + 1, lend, '\n');
   }
   return bbeg + (lend - lnl);
@@ -38,7 +38,7 @@ const char* find_leading_context(const char* const bbeg, const char* const hbeg,
 const char* find_trailing_context(const char* const hend, const char* const bend, size_t lines) {
   // context right of hit
   auto rnl = hend - 1;
-  for (int i = lines + 1; i > 0 && rnl != bend; --i) {
+  for (size_t i = 0; i <= lines && rnl != bend; ++i) {
     rnl = std::find(rnl + 1, bend, '\n');
   }
 
-- 
2.43.0


From 28e2675e6fcb75328774e29a080cc0a9c8d2158f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:54 +0000
Subject: [PATCH 38/38] fix: a very large preContext overflowed, so no leading
 context was given

---
 src/lib/lightgrep_c_util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/lightgrep_c_util.cpp b/src/lib/lightgrep_c_util.cpp
index fec7f69..5ccf7e3 100644
--- a/src/lib/lightgrep_c_util.cpp
+++ b/src/lib/lightgrep_c_util.cpp
@@ -127,7 +127,7 @@ namespace {
     // Decode leading sequences of increasing length until we hit the
     // beginning of the buffer or decode more values than we need for
     // leading context.
-    for (const byte* l = hbeg-1; l >= bbeg && hbeg - l <= ssize_t(leading * dec.maxByteLength()); --l) {
+    for (const byte* l = hbeg-1; l >= bbeg && size_t(hbeg - l - 1) / dec.maxByteLength() < leading; --l) {
       dec.reset(l, hbeg);
       lctx.clear();
       bad = 0;
-- 
2.43.0

