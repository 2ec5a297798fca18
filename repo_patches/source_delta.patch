From 71d3a06c596c1cd4edc0752b0aaddacfdfe41f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 01/86] fix: do not read past the end of a source ending in an
 escape

A normal string cut off right after a backslash made the lexer consume
two characters where only one is left.
---
 libnixf/src/Parse/Lexer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index 3de974f..f91ad79 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -397,7 +397,9 @@ Token Lexer::lexString() {
     // Consume two characters, for escaping
     // NOTE: we may not want to break out Unicode wchar here, but libexpr does
     // such ignoring
-    consume(2);
+    consume();
+    if (!eof()) // The source may end right after the backslash.
+      consume();
     Tok = tok_string_escape;
     break;
   case '$':
@@ -440,7 +442,8 @@ Token Lexer::lexIndString() {
       Tok = tok_string_escape;
     } else if (consumePrefix("\\")) {
       // ''\ escapes any character
-      consume();
+      if (!eof()) // The source may end right after the backslash.
+        consume();
       Tok = tok_string_escape;
     } else {
       Tok = tok_quote2;
-- 
2.43.0


From c539f5d14d0e04e62f150d13508f400c1c3c1c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 02/86] fix: classify characters without undefined behavior

std::isalpha() and friends are undefined for negative values, i.e. for
any non-ASCII byte where char is signed.
---
 libnixf/src/Parse/Lexer.cpp | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index f91ad79..1079b36 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -3,21 +3,34 @@
 #include "nixf/Basic/Range.h"
 
 #include <cassert>
-#include <cctype>
 
 using namespace nixf;
 using namespace tok;
 
 namespace {
 
+// The nix language is defined in terms of ASCII characters. The <cctype>
+// functions are locale dependent, and have undefined behavior on negative
+// values (i.e. any byte of a multi-byte UTF-8 sequence).
+
+bool isDigit(char Ch) { return Ch >= '0' && Ch <= '9'; }
+
+bool isAlpha(char Ch) {
+  return (Ch >= 'a' && Ch <= 'z') || (Ch >= 'A' && Ch <= 'Z');
+}
+
+bool isAlnum(char Ch) { return isAlpha(Ch) || isDigit(Ch); }
+
+bool isSpace(char Ch) { return Ch == ' ' || (Ch >= '\t' && Ch <= '\r'); }
+
 bool isUriSchemeChar(char Ch) {
   // These characters are valid URI scheme char.
-  return std::isalnum(Ch) || Ch == '+' || Ch == '-' || Ch == '.';
+  return isAlnum(Ch) || Ch == '+' || Ch == '-' || Ch == '.';
 }
 
 bool isUriPathChar(char Ch) {
   // These characters are valid URI path char.
-  return std::isalnum(Ch) || Ch == '%' || Ch == '/' || Ch == '?' || Ch == ':' ||
+  return isAlnum(Ch) || Ch == '%' || Ch == '/' || Ch == '?' || Ch == ':' ||
          Ch == '@' || Ch == '&' || Ch == '=' || Ch == '+' || Ch == '$' ||
          Ch == ',' || Ch == '-' || Ch == '_' || Ch == '.' || Ch == '!' ||
          Ch == '~' || Ch == '*' || Ch == '\'';
@@ -25,12 +38,12 @@ bool isUriPathChar(char Ch) {
 
 bool isPathChar(char Ch) {
   // These characters are valid path char.
-  return std::isdigit(Ch) || std::isalpha(Ch) || Ch == '.' || Ch == '_' ||
+  return isDigit(Ch) || isAlpha(Ch) || Ch == '.' || Ch == '_' ||
          Ch == '-' || Ch == '+';
 }
 
 bool isIdentifierChar(char Ch) {
-  return std::isdigit(Ch) || std::isalpha(Ch) || Ch == '_' || Ch == '\'' ||
+  return isDigit(Ch) || isAlpha(Ch) || Ch == '_' || Ch == '\'' ||
          Ch == '-';
 }
 
@@ -106,11 +119,11 @@ bool Lexer::peekPrefix(std::string_view Prefix) {
 }
 
 bool Lexer::consumeWhitespaces() {
-  if (auto Ch = peek(); Ch && !std::isspace(*Ch))
+  if (auto Ch = peek(); Ch && !isSpace(*Ch))
     return false;
   do {
     consume();
-  } while (!eof() && std::isspace(peekUnwrap()));
+  } while (!eof() && isSpace(peekUnwrap()));
   return true;
 }
 
@@ -495,19 +508,19 @@ Token Lexer::lex() {
   }
 
   // Determine if this is a URI.
-  if (std::isalpha(*Ch)) {
+  if (isAlpha(*Ch)) {
     if (consumeURI()) {
       Tok = tok_uri;
       return finishToken();
     }
   }
 
-  if (std::isdigit(*Ch)) {
+  if (isDigit(*Ch)) {
     lexNumbers();
     return finishToken();
   }
 
-  if (std::isalpha(*Ch) || *Ch == '_') {
+  if (isAlpha(*Ch) || *Ch == '_') {
 
     // So, this is not a path/URI, it should be an identifier.
     lexIdentifier();
-- 
2.43.0


From 5ee04169c5d5c10ad1a9b17452dc6369922755aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 03/86] fix: lex floats without an integral part

.5 is a valid float: (([1-9][0-9]*\.[0-9]*)|(0?\.[0-9]+))([Ee][+-]?[0-9]+)?
---
 libnixf/src/Parse/Lexer.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index 1079b36..a6ddee6 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -203,9 +203,10 @@ void Lexer::lexNumbers() {
   //
   // however, we accept [0-9]+\.[0-9]*([Ee][+-]?[0-9]+)?
   // and issues a warning if it has leading zeros
-  // [0-9]+
+  // [0-9]*, this part is empty for floats like ".5"
   auto Ch = consumeManyDigits();
-  assert(Ch.has_value() && "lexNumbers() must be called with a digit start");
+  assert((Ch.has_value() || peek() == '.') &&
+         "lexNumbers() must be called with a digit, or a dot");
   if (peek() == '.') {
     // float
     Tok = tok_float;
@@ -213,6 +214,8 @@ void Lexer::lexNumbers() {
     // [0-9]*
     consumeManyDigits();
     lexFloatExp();
+    if (!Ch)
+      return;
     // Checking that if the float token has leading zeros.
     std::string_view Prefix = Src.substr(Ch->lCur().Offset, 2);
     if (Prefix.starts_with("0") && Prefix != "0.")
@@ -515,7 +518,9 @@ Token Lexer::lex() {
     }
   }
 
-  if (isDigit(*Ch)) {
+  // Numbers, and floats without the integral part. e.g. ".5"
+  if (isDigit(*Ch) ||
+      (*Ch == '.' && !eof(Cur.Offset + 1) && isDigit(Src[Cur.Offset + 1]))) {
     lexNumbers();
     return finishToken();
   }
-- 
2.43.0


From 25b3e389ab2ee70681aaf899fcd469207b44ba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 04/86] fix: parse floats in double precision

NixFloat is a double, strtof() rounds it (and overflows beyond FLT_MAX).
---
 libnixf/src/Parse/ParseSimple.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/ParseSimple.cpp b/libnixf/src/Parse/ParseSimple.cpp
index c5ceebf..a7fbf57 100644
--- a/libnixf/src/Parse/ParseSimple.cpp
+++ b/libnixf/src/Parse/ParseSimple.cpp
@@ -147,7 +147,7 @@ std::shared_ptr<Expr> Parser::parseExprSimple() {
   case tok_float: {
     consume();
     // libc++ doesn't support std::from_chars for floating point numbers.
-    NixFloat N = std::strtof(std::string(Tok.view()).c_str(), nullptr);
+    NixFloat N = std::strtod(std::string(Tok.view()).c_str(), nullptr);
     return std::make_shared<ExprFloat>(Tok.range(), N);
   }
   case tok_spath: {
-- 
2.43.0


From 738a4ad0cf5b727a01fae4f1c6d945656673557c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 05/86] fix: decode escape sequences of indented strings

The second character of the escape sequence was taken as the escaped
one, but these are spelled ''$ ''' and ''\n in indented strings.
---
 libnixf/src/Parse/ParseStrings.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/ParseStrings.cpp b/libnixf/src/Parse/ParseStrings.cpp
index 1ee5ddf..cb86340 100644
--- a/libnixf/src/Parse/ParseStrings.cpp
+++ b/libnixf/src/Parse/ParseStrings.cpp
@@ -76,7 +76,15 @@ std::shared_ptr<InterpolatedParts> Parser::parseStringParts() {
       // The token view contains the full escape sequence (e.g., "\\n", "\\\"")
       std::string_view EscapeSeq = Tok.view();
       std::string Unescaped;
-      if (EscapeSeq.size() >= 2) {
+      if (EscapeSeq == "''$") {
+        Unescaped = "$";
+      } else if (EscapeSeq == "'''") {
+        Unescaped = "''";
+      } else if (EscapeSeq.starts_with("''")) {
+        // ''\n  in indented strings, what follows is the same as normal strings.
+        EscapeSeq.remove_prefix(2);
+      }
+      if (EscapeSeq.size() >= 2 && EscapeSeq[0] == '\\') {
         char Escaped = EscapeSeq[1];
         switch (Escaped) {
         case 'n':
-- 
2.43.0


From 5d871fafcc7204904191319e55ce9cf6f60d5f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 06/86] fix: consume "$$" in strings as a pair

"$$${a}" is "$$" followed by an interpolation.
---
 libnixf/src/Parse/Lexer.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index a6ddee6..ed75552 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -434,9 +434,9 @@ Token Lexer::lexString() {
         break;
       if (peekUnwrap() == '"')
         break;
-      // double-$, or \$, escapes ${.
-      // We will handle escaping on Sema
-      if (consumePrefix("$${"))
+      // "$$" is always consumed as a pair, thus the second one cannot start an
+      // interpolation. e.g. "$${a}" (text), "$$${a}" (text + interpolation)
+      if (consumePrefix("$$"))
         continue;
       // Encountered a string interpolation, stop here
       if (peekPrefix("${"))
@@ -476,9 +476,8 @@ Token Lexer::lexIndString() {
   for (; !eof();) {
     if (peekPrefix("''"))
       break;
-    // double-$, or \$, escapes ${.
-    // We will handle escaping on Sema
-    if (consumePrefix("$${"))
+    // "$$" is always consumed as a pair, see above.
+    if (consumePrefix("$$"))
       continue;
     // Encountered a string interpolation, stop here
     if (peekPrefix("${"))
-- 
2.43.0


From d4116d5686dd7ababf005fe83c389f0b72afb9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:27 +0000
Subject: [PATCH 07/86] fix: make '/' left associative, with the precedence of
 '*'

It was grouped with '++', so a / b / c was parsed as a / (b / c).
---
 libnixf/src/Parse/ParseOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/ParseOp.cpp b/libnixf/src/Parse/ParseOp.cpp
index 58a19b0..cab54d1 100644
--- a/libnixf/src/Parse/ParseOp.cpp
+++ b/libnixf/src/Parse/ParseOp.cpp
@@ -57,8 +57,8 @@ std::pair<unsigned, unsigned> getBP(TokenKind Kind) {
   case tok_op_negate:
     return {14, 15};
   case tok_op_mul: // %left * /
-    return {16, 17};
   case tok_op_div:
+    return {16, 17};
   case tok_op_concat: // %right ++
     return {19, 18};
   // % op_negate
-- 
2.43.0


From 062d3096688a0b26df48d18feafccf4129e85a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 08/86] fix: let NOT bind tighter than '//'

!a // b is (!a) // b
---
 libnixf/src/Parse/ParseOp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Parse/ParseOp.cpp b/libnixf/src/Parse/ParseOp.cpp
index cab54d1..49c9bd6 100644
--- a/libnixf/src/Parse/ParseOp.cpp
+++ b/libnixf/src/Parse/ParseOp.cpp
@@ -69,8 +69,8 @@ std::pair<unsigned, unsigned> getBP(TokenKind Kind) {
 
 unsigned getUnaryBP(TokenKind Kind) {
   switch (Kind) {
-  case tok_op_not:
-    return 11;
+  case tok_op_not: // %left NOT
+    return 13;
   case tok_op_negate:
     return 100;
   default:
-- 
2.43.0


From 31bd5635ceff34d64a908d65ea23d02f2605197f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 09/86] fix: respect the precedence of the '?' operator

-a ? b is (-a) ? b, and the operator is non-associative.
---
 libnixf/src/Parse/ParseOp.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libnixf/src/Parse/ParseOp.cpp b/libnixf/src/Parse/ParseOp.cpp
index 49c9bd6..42b3faa 100644
--- a/libnixf/src/Parse/ParseOp.cpp
+++ b/libnixf/src/Parse/ParseOp.cpp
@@ -67,6 +67,9 @@ std::pair<unsigned, unsigned> getBP(TokenKind Kind) {
   }
 }
 
+/// Binding power of %nonassoc '?'. i.e. expr_op '?' attrpath
+constexpr unsigned HasAttrBP = 20;
+
 unsigned getUnaryBP(TokenKind Kind) {
   switch (Kind) {
   case tok_op_not: // %left NOT
@@ -140,6 +143,12 @@ std::shared_ptr<Expr> Parser::parseExprOpBP(unsigned LeftRBP) {
       }
     case tok_question: {
       // expr_op '?' attrpath
+      if (LeftRBP > HasAttrBP)
+        return Prefix;
+      if (Prefix->kind() == Node::NK_ExprOpHasAttr) {
+        // Report error, a ? b ? c
+        Diags.emplace_back(Diagnostic::DK_OperatorNotAssociative, Tok.range());
+      }
       consume();
       assert(LastToken && "consume() should have set LastToken");
       auto O = std::make_shared<Op>(Tok.range(), Tok.kind());
-- 
2.43.0


From 688b1300bef43c26d9b991186a0d063aff483bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:22 +0000
Subject: [PATCH 10/86] fix: desugar quoted and dynamic names in inherit

inherit "foo"; and inherit ${foo}; were taken as plain identifiers.
---
 libnixf/src/Sema/SemaActions.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Sema/SemaActions.cpp b/libnixf/src/Sema/SemaActions.cpp
index 589012d..8e70d87 100644
--- a/libnixf/src/Sema/SemaActions.cpp
+++ b/libnixf/src/Sema/SemaActions.cpp
@@ -308,6 +308,11 @@ void Sema::lowerInheritName(SemaAttrs &SA, std::shared_ptr<AttrName> Name,
 void Sema::lowerInherit(SemaAttrs &Attr, const Inherit &Inherit) {
   for (const std::shared_ptr<AttrName> &Name : Inherit.names()) {
     assert(Name);
+    if (!Name->isStatic()) {
+      // Cannot be desugared, because the name is unknown.
+      lowerInheritName(Attr, Name, nullptr, Attribute::AttributeKind::Inherit);
+      continue;
+    }
     auto [Desugar, Kind] = desugarInheritExpr(Name, Inherit.expr());
     lowerInheritName(Attr, Name, std::move(Desugar), Kind);
   }
@@ -337,9 +342,14 @@ std::pair<std::shared_ptr<Expr>, Attribute::AttributeKind>
 Sema::desugarInheritExpr(std::shared_ptr<AttrName> Name,
                          std::shared_ptr<Expr> E) {
   auto Range = Name->range();
-  if (!E)
-    return {std::make_shared<ExprVar>(Range, Name->id()),
+  if (!E) {
+    // The name might be quoted: inherit "foo";
+    auto ID = Name->kind() == AttrName::ANK_ID
+                  ? Name->id()
+                  : std::make_shared<Identifier>(Range, Name->staticName());
+    return {std::make_shared<ExprVar>(Range, std::move(ID)),
             Attribute::AttributeKind::Inherit};
+  }
 
   auto Path = std::make_shared<AttrPath>(
       Range, std::vector<std::shared_ptr<AttrName>>{std::move(Name)},
-- 
2.43.0


From 0908b90ae88b7c936ea538497c6233d58d0de357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 11/86] fix: treat the empty string as a literal

Otherwise the attribute name "" is considered to be dynamic.
---
 libnixf/src/Basic/Nodes.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/libnixf/src/Basic/Nodes.cpp b/libnixf/src/Basic/Nodes.cpp
index b316261..eaf8c05 100644
--- a/libnixf/src/Basic/Nodes.cpp
+++ b/libnixf/src/Basic/Nodes.cpp
@@ -6,10 +6,8 @@ namespace {
 
 std::vector<InterpolablePart>
 mergeFragments(std::vector<InterpolablePart> Fragments) {
-  if (Fragments.empty())
-    return Fragments;
-
   // Check if the fragment forms a string literal (i.e. no interpolation)
+  // Note that the empty string "" is also a literal.
   for (const InterpolablePart &Frag : Fragments) {
     if (Frag.kind() == InterpolablePart::SPK_Interpolation)
       return Fragments;
-- 
2.43.0


From dce4baedd981e7700256c8536de3b4ea85e57a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 12/86] fix: parse paths followed by "~/", or consecutive
 interpolations

a/b~/c hits an assertion, and in a/${b}${c} the second "${" is taken
as a part of the path literally.
---
 libnixf/src/Parse/ParseStrings.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/libnixf/src/Parse/ParseStrings.cpp b/libnixf/src/Parse/ParseStrings.cpp
index cb86340..10765e3 100644
--- a/libnixf/src/Parse/ParseStrings.cpp
+++ b/libnixf/src/Parse/ParseStrings.cpp
@@ -33,21 +33,22 @@ std::shared_ptr<Expr> Parser::parseExprPath() {
   LexerCursor End;
   /* with(PS_Path) */ {
     auto PathState = withState(PS_Path);
-    do {
+    while (true) {
       Token Current = peek();
-      Fragments.emplace_back(std::string(Current.view()));
-      consume();
-      End = Current.rCur();
-      Token Next = peek();
-      if (Next.kind() == tok_path_end)
-        break;
-      if (Next.kind() == tok_dollar_curly) {
+      if (Current.kind() == tok_dollar_curly) {
         if (auto Expr = parseInterpolation())
           Fragments.emplace_back(std::move(Expr));
+        End = LastToken->rCur();
         continue;
       }
-      assert(false && "should be path_end or ${");
-    } while (true);
+      // "~/" starts another path, e.g. a/b~/c
+      if (Current.kind() != tok_path_fragment ||
+          (!Fragments.empty() && Current.view().starts_with("~")))
+        break;
+      Fragments.emplace_back(std::string(Current.view()));
+      consume();
+      End = Current.rCur();
+    }
   }
   auto Parts = std::make_shared<InterpolatedParts>(
       LexerCursorRange{Begin.lCur(), End}, std::move(Fragments));
-- 
2.43.0


From a7a1a7b37eb54653a2e3e0646e1c73da6f3b08c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 13/86] fix: report paths with a trailing slash

This is an error in nix, and the diagnostic was declared but not emitted.
---
 libnixf/src/Parse/ParseStrings.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libnixf/src/Parse/ParseStrings.cpp b/libnixf/src/Parse/ParseStrings.cpp
index 10765e3..88918c8 100644
--- a/libnixf/src/Parse/ParseStrings.cpp
+++ b/libnixf/src/Parse/ParseStrings.cpp
@@ -48,6 +48,8 @@ std::shared_ptr<Expr> Parser::parseExprPath() {
       Fragments.emplace_back(std::string(Current.view()));
       consume();
       End = Current.rCur();
+      if (Current.view().ends_with("/") && peek().kind() == tok_path_end)
+        Diags.emplace_back(Diagnostic::DK_PathTrailingSlash, Current.range());
     }
   }
   auto Parts = std::make_shared<InterpolatedParts>(
-- 
2.43.0


From dd3e8f9ec2f70bc26491ca5495a842009145eba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 14/86] fix: recover from missing condition of assert at ';'

assert ; e: the condition is followed by a semi-colon, not a colon.
---
 libnixf/src/Parse/ParseExpr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/ParseExpr.cpp b/libnixf/src/Parse/ParseExpr.cpp
index 88062b1..74ed61e 100644
--- a/libnixf/src/Parse/ParseExpr.cpp
+++ b/libnixf/src/Parse/ParseExpr.cpp
@@ -225,7 +225,7 @@ std::shared_ptr<ExprAssert> Parser::parseExprAssert() {
     D.fix("remove `assert` keyword")
         .edit(TextEdit::mkRemoval(TokAssert.range()));
 
-    if (peek().kind() != tok_colon)
+    if (peek().kind() != tok_semi_colon)
       return std::make_shared<ExprAssert>(
           LexerCursorRange{LCur, LastToken->rCur()}, std::move(Cond),
           /*Value=*/nullptr);
-- 
2.43.0


From 7f3120071379871b8749badf68b09c3fccf6995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:23 +0000
Subject: [PATCH 15/86] fix: place quick fixes of the extra '@' at the '@'

They were removing the argument name, and inserting formals before '@'.
---
 libnixf/src/Parse/ParseLambda.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libnixf/src/Parse/ParseLambda.cpp b/libnixf/src/Parse/ParseLambda.cpp
index 59947ab..ee08896 100644
--- a/libnixf/src/Parse/ParseLambda.cpp
+++ b/libnixf/src/Parse/ParseLambda.cpp
@@ -92,15 +92,16 @@ std::shared_ptr<LambdaArg> Parser::parseLambdaArg() {
       return Act.onLambdaArg(LexerCursorRange{LCur, LastToken->rCur()},
                              std::move(ID), nullptr);
 
+    Token TokAt = peek();
     consume(); // @
     std::shared_ptr<Formals> Formals = parseFormals();
     if (!Formals) {
       // extra "@", consider remove it.
       Diagnostic &D =
-          Diags.emplace_back(Diagnostic::DK_LambdaArgExtraAt, TokID.range());
-      D.fix("remove extra @").edit(TextEdit::mkRemoval(TokID.range()));
+          Diags.emplace_back(Diagnostic::DK_LambdaArgExtraAt, TokAt.range());
+      D.fix("remove extra @").edit(TextEdit::mkRemoval(TokAt.range()));
       D.fix("insert dummy formals")
-          .edit(TextEdit::mkInsertion(TokID.rCur(), R"({})"));
+          .edit(TextEdit::mkInsertion(TokAt.rCur(), R"({})"));
     }
     return Act.onLambdaArg(LexerCursorRange{LCur, LastToken->rCur()},
                            std::move(ID), std::move(Formals));
-- 
2.43.0


From f52b242f7107bd901717ccad050990ef01c7e397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 16/86] fix: report dynamic attributes in let ... in ...

This is an error in nix, and the diagnostic was declared but not emitted.
---
 libnixf/include/nixf/Sema/SemaActions.h |  4 ++++
 libnixf/src/Parse/ParseExpr.cpp         |  2 ++
 libnixf/src/Sema/SemaActions.cpp        | 16 ++++++++++++++++
 3 files changed, 22 insertions(+)

diff --git a/libnixf/include/nixf/Sema/SemaActions.h b/libnixf/include/nixf/Sema/SemaActions.h
index 394b6cd..7cf7ec2 100644
--- a/libnixf/include/nixf/Sema/SemaActions.h
+++ b/libnixf/include/nixf/Sema/SemaActions.h
@@ -48,6 +48,10 @@ public:
   static std::pair<std::shared_ptr<Expr>, Attribute::AttributeKind>
   desugarInheritExpr(std::shared_ptr<AttrName> Name, std::shared_ptr<Expr> E);
 
+  /// \brief Diagnose dynamic attributes in let ... in ..., e.g.
+  /// `let ${a} = 1; in b`
+  void checkLetDynamic(const SemaAttrs &SA);
+
   void dupAttr(std::string Name, LexerCursorRange Range, LexerCursorRange Prev);
 
   /// \brief Check if these two attrsets has the same "recursive" modifier.
diff --git a/libnixf/src/Parse/ParseExpr.cpp b/libnixf/src/Parse/ParseExpr.cpp
index 74ed61e..2c52dc4 100644
--- a/libnixf/src/Parse/ParseExpr.cpp
+++ b/libnixf/src/Parse/ParseExpr.cpp
@@ -269,6 +269,8 @@ std::shared_ptr<ExprLet> Parser::parseExprLet() {
 
   auto Binds = parseBinds();
   auto Attrs = Binds ? Act.onExprAttrs(Binds->range(), Binds, Let) : nullptr;
+  if (Attrs)
+    Act.checkLetDynamic(Attrs->sema());
 
   ExpectResult ExpKwIn = expect(tok_kw_in);
 
diff --git a/libnixf/src/Sema/SemaActions.cpp b/libnixf/src/Sema/SemaActions.cpp
index 8e70d87..6c25965 100644
--- a/libnixf/src/Sema/SemaActions.cpp
+++ b/libnixf/src/Sema/SemaActions.cpp
@@ -152,6 +152,22 @@ Sema::selectOrCreate(SemaAttrs &SA,
   return Inner;
 }
 
+void Sema::checkLetDynamic(const SemaAttrs &SA) {
+  for (const Attribute &Attr : SA.dynamicAttrs()) {
+    const auto &Name = static_cast<const AttrName &>(Attr.key());
+    if (Name.kind() == AttrName::ANK_Interpolation) {
+      const Expr *E = Name.interpolation().expr();
+      while (E && E->kind() == Node::NK_ExprParen)
+        E = static_cast<const ExprParen *>(E)->expr();
+      // ${"foo"}, nix takes such names as static.
+      if (!E || (E->kind() == Node::NK_ExprString &&
+                 static_cast<const ExprString *>(E)->isLiteral()))
+        continue;
+    }
+    Diags.emplace_back(Diagnostic::DK_LetDynamic, Name.range());
+  }
+}
+
 void Sema::addAttr(SemaAttrs &Attr, const AttrPath &Path,
                    std::shared_ptr<Expr> E) {
   // Select until the inner-most attr.
-- 
2.43.0


From 57c4b20e1079d41a3f5e75ddd3aa61e263cdebcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 17/86] fix: report the comma before the first formal

x@{ , a }: and x@{ , }: were silently accepted.
---
 libnixf/src/Sema/SemaActions.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/libnixf/src/Sema/SemaActions.cpp b/libnixf/src/Sema/SemaActions.cpp
index 6c25965..7fdd446 100644
--- a/libnixf/src/Sema/SemaActions.cpp
+++ b/libnixf/src/Sema/SemaActions.cpp
@@ -244,14 +244,14 @@ void Sema::checkFormalSep(const FormalVector &FV) {
 
 void Sema::checkFormalEmpty(const FormalVector &FV) {
   for (auto It = FV.cbegin(); It != FV.cend(); It++) {
+    const std::shared_ptr<Formal> &FPtr = *It;
+    const Formal &F = *FPtr;
     // Special case, ignore the last one.
     // Because the nix formatting guide explicitly place a "comma" at the
     // trailing of formals.
-    if (It + 1 == FV.cend())
+    if (It != FV.cbegin() && It + 1 == FV.cend())
       break;
 
-    const std::shared_ptr<Formal> &FPtr = *It;
-    const Formal &F = *FPtr;
     // Check if the formal is emtpy, e.g.
     // { , }
     //   ^  empty formal
@@ -261,6 +261,16 @@ void Sema::checkFormalEmpty(const FormalVector &FV) {
       D.tag(DiagnosticTag::Faded);
       continue;
     }
+    // Nothing is placed before the first comma, e.g.
+    // { , foo }
+    //   ^  empty formal
+    if (It == FV.cbegin() && F.comma()) {
+      Diagnostic &D = Diags.emplace_back(Diagnostic::DK_EmptyFormal,
+                                         F.comma()->range());
+      D.fix("remove empty formal")
+          .edit(TextEdit::mkRemoval(F.comma()->range()));
+      D.tag(DiagnosticTag::Faded);
+    }
   }
 }
 
-- 
2.43.0


From 2cd9c5f8b775692386a6ec6220768b8a7791b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 18/86] fix: do not take internal primops as global ones

Internal primops are not defined in the global scope, so using such a
name (e.g. fetchFinalTree) as a variable hits an assertion.
---
 libnixf/src/Sema/PrimOpLookup.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Sema/PrimOpLookup.cpp b/libnixf/src/Sema/PrimOpLookup.cpp
index 222c596..5ed4160 100644
--- a/libnixf/src/Sema/PrimOpLookup.cpp
+++ b/libnixf/src/Sema/PrimOpLookup.cpp
@@ -2,14 +2,24 @@
 
 using namespace nixf;
 
+namespace {
+
+/// Internal primops are not exposed to the user.
+bool isExposed(const std::string &Name) {
+  auto It = PrimOpsInfo.find(Name);
+  return It != PrimOpsInfo.end() && !It->second.Internal;
+}
+
+} // namespace
+
 PrimopLookupResult nixf::lookupGlobalPrimOpInfo(const std::string &Name) {
-  if (PrimOpsInfo.contains(Name)) {
+  if (isExposed(Name)) {
     return PrimopLookupResult::Found;
   }
 
   // Prefix the name with "__", and check again.
   std::string PrefixedName = "__" + Name;
-  if (PrimOpsInfo.contains(PrefixedName)) {
+  if (isExposed(PrefixedName)) {
     return PrimopLookupResult::PrefixedFound;
   }
 
-- 
2.43.0


From bd68eddfa818e5137fd443981c2eaae214882402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 19/86] fix: visit the expression of inherit (expr) a b; only
 once

It is shared by a desugared select for each of the names, so its
variables were recorded, and its diagnostics reported, once for each of
them. Nesting them takes exponential time.
---
 libnixf/src/Sema/VariableLookup.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 792d706..fe7c16d 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -509,7 +509,10 @@ void VariableLookupAnalysis::checkLetInheritBuiltins(const SemaAttrs &SA) {
 
 void VariableLookupAnalysis::dfs(const Node &Root,
                                  const std::shared_ptr<EnvNode> &Env) {
-  Envs.insert({&Root, Env});
+  // Nodes may be shared, e.g. inherit (expr) a b; is desugared to expr.a and
+  // expr.b. Visit them only once.
+  if (!Envs.insert({&Root, Env}).second)
+    return;
   switch (Root.kind()) {
   case Node::NK_ExprVar: {
     const auto &Var = static_cast<const ExprVar &>(Root);
-- 
2.43.0


From 8663d618f24a85e62be8b6277e10c6887857cafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 20/86] fix: look up variables in the expression of an empty
 inherit

inherit (expr); has no names to be desugared to, so that the variables
in expr were not known, and what they refer to was reported as unused.
---
 libnixf/include/nixf/Sema/VariableLookup.h |  6 ++++++
 libnixf/src/Sema/VariableLookup.cpp        | 17 ++++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/libnixf/include/nixf/Sema/VariableLookup.h b/libnixf/include/nixf/Sema/VariableLookup.h
index e592a14..4ca4b56 100644
--- a/libnixf/include/nixf/Sema/VariableLookup.h
+++ b/libnixf/include/nixf/Sema/VariableLookup.h
@@ -151,6 +151,12 @@ private:
 
   void emitEnvLivenessWarning(const std::shared_ptr<EnvNode> &NewEnv);
 
+  /// \brief Visit \p expr of inherit (expr) ...;
+  ///
+  /// They are usually visited as a part of the desugared attributes, except
+  /// those without any (valid) name.
+  void dfsInheritExprs(const Binds &B, const std::shared_ptr<EnvNode> &Env);
+
   void dfsDynamicAttrs(const std::vector<Attribute> &DynamicAttrs,
                        const std::shared_ptr<EnvNode> &Env);
 
diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index fe7c16d..905ea6c 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -311,6 +311,16 @@ void VariableLookupAnalysis::dfsDynamicAttrs(
   }
 }
 
+void VariableLookupAnalysis::dfsInheritExprs(
+    const Binds &B, const std::shared_ptr<EnvNode> &Env) {
+  for (const auto &Bind : B.bindings()) {
+    if (Bind->kind() != Node::NK_Inherit)
+      continue;
+    if (const auto &E = static_cast<const Inherit &>(*Bind).expr())
+      dfs(*E, Env);
+  }
+}
+
 std::shared_ptr<EnvNode> VariableLookupAnalysis::dfsAttrs(
     const SemaAttrs &SA, const std::shared_ptr<EnvNode> &Env,
     const Node *Syntax, Definition::DefinitionSource Source) {
@@ -358,6 +368,8 @@ void VariableLookupAnalysis::dfs(const ExprAttrs &Attrs,
   const SemaAttrs &SA = Attrs.sema();
   std::shared_ptr<EnvNode> NewEnv =
       dfsAttrs(SA, Env, &Attrs, Definition::DS_Rec);
+  if (Attrs.binds())
+    dfsInheritExprs(*Attrs.binds(), NewEnv);
   if (NewEnv != Env) {
     assert(Attrs.isRecursive() &&
            "NewEnv must be created for recursive attrset");
@@ -387,7 +399,10 @@ void VariableLookupAnalysis::dfs(const ExprLet &Let,
     const SemaAttrs &SA = Let.attrs()->sema();
     assert(SA.isRecursive() && "let ... in ... attrset must be recursive");
     checkLetInheritBuiltins(SA);
-    return dfsAttrs(SA, Env, &Let, Definition::DS_Let);
+    auto NewEnv = dfsAttrs(SA, Env, &Let, Definition::DS_Let);
+    if (Let.binds())
+      dfsInheritExprs(*Let.binds(), NewEnv);
+    return NewEnv;
   };
 
   auto LetEnv = GetLetEnv();
-- 
2.43.0


From 99b8b288508c9d82143ed75b75b0e80bfabf4b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 21/86] fix: do not take <path/> as a search path

---
 libnixf/src/Parse/Lexer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index ed75552..ae0c0cf 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -322,6 +322,9 @@ bool Lexer::consumeSPath() {
             consume();
           continue;
         }
+        // A trailing slash, not a <path>.
+        Cur = Saved;
+        return false;
       }
       break;
     }
-- 
2.43.0


From 6444f43ca4c24aa0751e76b180fc80e3e3ddb82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 22/86] fix: check builtins only if they are not shadowed

---
 libnixf/include/nixf/Sema/VariableLookup.h | 11 +++++--
 libnixf/src/Sema/VariableLookup.cpp        | 35 ++++++++++++++++++----
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/libnixf/include/nixf/Sema/VariableLookup.h b/libnixf/include/nixf/Sema/VariableLookup.h
index 4ca4b56..57bea6e 100644
--- a/libnixf/include/nixf/Sema/VariableLookup.h
+++ b/libnixf/include/nixf/Sema/VariableLookup.h
@@ -140,9 +140,14 @@ private:
 
   void lookupVar(const ExprVar &Var, const std::shared_ptr<EnvNode> &Env);
 
-  void checkBuiltins(const ExprSelect &Sel);
-
-  void checkLetInheritBuiltins(const SemaAttrs &SA);
+  void checkBuiltins(const ExprSelect &Sel,
+                     const std::shared_ptr<EnvNode> &Env);
+
+  /// \param Env The environment in which the "let" expression is.
+  /// \param LetEnv The environment of its bindings.
+  void checkLetInheritBuiltins(const SemaAttrs &SA,
+                               const std::shared_ptr<EnvNode> &Env,
+                               const std::shared_ptr<EnvNode> &LetEnv);
 
   std::shared_ptr<EnvNode> dfsAttrs(const SemaAttrs &SA,
                                     const std::shared_ptr<EnvNode> &Env,
diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 905ea6c..89347e6 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -85,9 +85,21 @@ bool checkInheritedFromBuiltin(const Attribute &Attr) {
   return false;
 }
 
+/// Whether \p Name refers to the builtin one in \p Env, i.e. it is not shadowed.
+bool isBuiltinIn(const std::string &Name, const EnvNode *Env) {
+  for (; Env; Env = Env->parent()) {
+    if (auto It = Env->defs().find(Name); It != Env->defs().end())
+      return It->second->isBuiltin();
+  }
+  return false;
+}
+
 bool isBuiltinConstant(const std::string &Name) {
   if (Name.starts_with("_"))
     return false;
+  // builtins.builtins
+  if (Name == "builtins")
+    return true;
   return Constants.contains(Name) || Constants.contains("__" + Name);
 }
 
@@ -398,8 +410,8 @@ void VariableLookupAnalysis::dfs(const ExprLet &Let,
     // If there are some attributes actually, create a new env.
     const SemaAttrs &SA = Let.attrs()->sema();
     assert(SA.isRecursive() && "let ... in ... attrset must be recursive");
-    checkLetInheritBuiltins(SA);
     auto NewEnv = dfsAttrs(SA, Env, &Let, Definition::DS_Let);
+    checkLetInheritBuiltins(SA, Env, NewEnv);
     if (Let.binds())
       dfsInheritExprs(*Let.binds(), NewEnv);
     return NewEnv;
@@ -455,7 +467,8 @@ void VariableLookupAnalysis::dfs(const ExprWith &With,
   }
 }
 
-void VariableLookupAnalysis::checkBuiltins(const ExprSelect &Sel) {
+void VariableLookupAnalysis::checkBuiltins(
+    const ExprSelect &Sel, const std::shared_ptr<EnvNode> &Env) {
   if (!Sel.path())
     return;
 
@@ -470,6 +483,10 @@ void VariableLookupAnalysis::checkBuiltins(const ExprSelect &Sel) {
   if (Builtins.id().name() != "builtins")
     return;
 
+  // This is not *the* builtins, e.g. { builtins }: builtins.foo
+  if (!isBuiltinIn("builtins", Env.get()))
+    return;
+
   const auto &AP = *Sel.path();
 
   if (AP.names().size() != 1)
@@ -483,6 +500,9 @@ void VariableLookupAnalysis::checkBuiltins(const ExprSelect &Sel) {
 
   switch (lookupGlobalPrimOpInfo(Name)) {
   case PrimopLookupResult::Found: {
+    // Without the prefix, it refers to another definition.
+    if (!isBuiltinIn(Name, Env.get()))
+      return;
     Diagnostic &D = Diags.emplace_back(Diagnostic::DK_PrimOpRemovablePrefix,
                                        Builtins.range());
     Fix &F =
@@ -507,13 +527,18 @@ void VariableLookupAnalysis::checkBuiltins(const ExprSelect &Sel) {
   }
 }
 
-void VariableLookupAnalysis::checkLetInheritBuiltins(const SemaAttrs &SA) {
+void VariableLookupAnalysis::checkLetInheritBuiltins(
+    const SemaAttrs &SA, const std::shared_ptr<EnvNode> &Env,
+    const std::shared_ptr<EnvNode> &LetEnv) {
+  if (!isBuiltinIn("builtins", LetEnv.get()))
+    return;
   for (const auto &[Name, Attr] : SA.staticAttrs()) {
     if (!checkInheritedFromBuiltin(Attr))
       continue;
 
     // Check if the inherited name is a prelude builtin
-    if (lookupGlobalPrimOpInfo(Name) == PrimopLookupResult::Found) {
+    if (lookupGlobalPrimOpInfo(Name) == PrimopLookupResult::Found &&
+        isBuiltinIn(Name, Env.get())) {
       Diagnostic &D = Diags.emplace_back(Diagnostic::DK_PrimOpRemovablePrefix,
                                          Attr.key().range());
       D.fix("remove unnecessary inherit")
@@ -562,7 +587,7 @@ void VariableLookupAnalysis::dfs(const Node &Root,
   case Node::NK_ExprSelect: {
     trivialDispatch(Root, Env);
     const auto &Sel = static_cast<const ExprSelect &>(Root);
-    checkBuiltins(Sel);
+    checkBuiltins(Sel, Env);
     break;
   }
   default:
-- 
2.43.0


From 65761eec072a3b0fa2c73cbba0e41bc9ddc3b6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 23/86] fix: do not report the 'let' of legacy let as an extra
 'rec'

---
 libnixf/src/Sema/VariableLookup.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 89347e6..4d1a3a2 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -426,8 +426,15 @@ void VariableLookupAnalysis::dfs(const ExprLet &Let,
 
 void VariableLookupAnalysis::dfs(const ExprLegacyLet &LegacyLet,
                                  const std::shared_ptr<EnvNode> &Env) {
-  if (LegacyLet.attrs())
-    dfs(*LegacyLet.attrs(), Env);
+  if (!LegacyLet.attrs())
+    return;
+  // The attrset has to be recursive, thus do not check if "rec" is necessary:
+  // it is the "let" keyword.
+  const ExprAttrs &Attrs = *LegacyLet.attrs();
+  Envs.insert({&Attrs, Env});
+  auto NewEnv = dfsAttrs(Attrs.sema(), Env, &Attrs, Definition::DS_Rec);
+  if (Attrs.binds())
+    dfsInheritExprs(*Attrs.binds(), NewEnv);
 }
 
 void VariableLookupAnalysis::trivialDispatch(
-- 
2.43.0


From fd4a4e697377ce7c9dd2bac44b8d6da27fe734ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 24/86] fix: quick fixes of legacy let and redundant
 parentheses that break the code

---
 libnixf/src/Parse/ParseExpr.cpp   | 84 +++++++++++++++++++++++++++++--
 libnixf/src/Parse/ParseSimple.cpp | 28 +++++++++--
 2 files changed, 105 insertions(+), 7 deletions(-)

diff --git a/libnixf/src/Parse/ParseExpr.cpp b/libnixf/src/Parse/ParseExpr.cpp
index 2c52dc4..dd7cd10 100644
--- a/libnixf/src/Parse/ParseExpr.cpp
+++ b/libnixf/src/Parse/ParseExpr.cpp
@@ -3,6 +3,59 @@
 using namespace nixf;
 using namespace nixf::detail;
 
+namespace {
+
+/// \brief Whether a complete expression (i.e. non-term \p expr) begins after the
+/// token \p Before.
+bool isBeginOfExpr(const std::optional<Token> &Before) {
+  if (!Before)
+    return true;
+  switch (Before->kind()) {
+  case tok_l_paren:
+  case tok_dollar_curly:
+  case tok_eq:
+  case tok_colon:
+  case tok_semi_colon:
+  case tok_kw_in:
+  case tok_kw_if:
+  case tok_kw_then:
+  case tok_kw_else:
+  case tok_kw_assert:
+  case tok_kw_with:
+    return true;
+  default:
+    return false;
+  }
+}
+
+/// \brief Whether a complete expression ends before the token \p After.
+bool isEndOfExpr(const Token &After) {
+  switch (After.kind()) {
+  case tok_eof:
+  case tok_r_paren:
+  case tok_r_curly:
+  case tok_semi_colon:
+  case tok_comma:
+    return true;
+  default:
+    return false;
+  }
+}
+
+/// \brief Whether there is an identifier \p Name in \p N, except in \p Except.
+bool mentions(const Node &N, std::string_view Name, const Node &Except) {
+  if (&N == &Except)
+    return false;
+  if (N.kind() == Node::NK_Identifier)
+    return static_cast<const Identifier &>(N).name() == Name;
+  for (const Node *Ch : N.children())
+    if (Ch && mentions(*Ch, Name, Except))
+      return true;
+  return false;
+}
+
+} // namespace
+
 std::shared_ptr<Expr> Parser::parseExprSelect() {
   std::shared_ptr<Expr> Expr = parseExprSimple();
   if (!Expr)
@@ -339,6 +392,7 @@ std::shared_ptr<ExprLegacyLet> Parser::parseExprLegacyLet() {
   assert(TokLet.kind() == tok_kw_let &&
          "parseExprLegacyLet should start with `let`");
   auto KwLet = std::make_shared<Misc>(TokLet.range());
+  std::optional<Token> Before = LastToken;
   consume(); // 'let'
 
   auto Sync = withSync(tok_r_curly);
@@ -368,6 +422,9 @@ std::shared_ptr<ExprLegacyLet> Parser::parseExprLegacyLet() {
 
   bool HasBody = Attrs && Attrs->sema().staticAttrs().contains("body");
 
+  // Note: peek() may emit diagnostics, look ahead before creating one.
+  bool IsEnd = isEndOfExpr(peek());
+
   Diagnostic &DWarn =
       Diags.emplace_back(Diagnostic::DK_DeprecatedLet, FullRange);
 
@@ -383,11 +440,30 @@ std::shared_ptr<ExprLegacyLet> Parser::parseExprLegacyLet() {
         continue;
       if (!Bind.value())
         break;
+      // let { body.foo = 1; }
+      if (Bind.path().names().size() != 1)
+        break;
+      // They are not allowed in "let ... in ...".
+      if (!Attrs->sema().dynamicAttrs().empty())
+        break;
+      // Do not remove "body" if other attributes may refer to it.
+      bool KeepBody = mentions(*Attrs->binds(), "body", Name);
+      std::string NewText = "in ";
+      NewText += KeepBody ? "body" : Bind.value()->src(Src);
+      // The new expression is not "simple", parenthesize it if necessary.
+      bool NeedParen = !isBeginOfExpr(Before) || !IsEnd;
       Fix &F = DWarn.fix("convert to `let ... in ...`");
-      F.edit(TextEdit::mkRemoval(LCurlyRange));
-      F.edit(TextEdit::mkRemoval(Bind.range()));
-      F.edit(
-          TextEdit(RCurlyRange, "in " + std::string(Bind.value()->src(Src))));
+      if (NeedParen) {
+        F.edit(TextEdit::mkInsertion(LCur, "("));
+        NewText += ")";
+      }
+      if (TokLet.rCur().offset() == LCurlyRange.lCur().offset())
+        F.edit(TextEdit(LCurlyRange, " ")); // let{
+      else
+        F.edit(TextEdit::mkRemoval(LCurlyRange));
+      if (!KeepBody)
+        F.edit(TextEdit::mkRemoval(Bind.range()));
+      F.edit(TextEdit(RCurlyRange, std::move(NewText)));
       break;
     }
   }
diff --git a/libnixf/src/Parse/ParseSimple.cpp b/libnixf/src/Parse/ParseSimple.cpp
index a7fbf57..6e2954a 100644
--- a/libnixf/src/Parse/ParseSimple.cpp
+++ b/libnixf/src/Parse/ParseSimple.cpp
@@ -35,6 +35,28 @@ bool mayProducedBySimple(const Expr *E) {
   return mayProducedBySimple(E->kind());
 }
 
+/// \brief Removes the parenthesis \p Range.
+///
+/// A space is left if the tokens around it might be glued by the removal,
+/// e.g. f(a)b, a-(b), (1).a
+TextEdit removeParen(std::string_view Src, LexerCursorRange Range) {
+  std::size_t Begin = Range.lCur().offset();
+  std::size_t End = Range.rCur().offset();
+  constexpr std::string_view Spaces = " \t\r\n";
+  constexpr std::string_view Open = "([{;,=";
+  constexpr std::string_view Close = ")]};,";
+  auto IsBoundary = [&](std::size_t Pos) {
+    return Spaces.find(Src[Pos]) != std::string_view::npos;
+  };
+  bool Separated =
+      Begin == 0 || End == Src.size() || IsBoundary(Begin - 1) ||
+      IsBoundary(End) || Open.find(Src[Begin - 1]) != std::string_view::npos ||
+      Close.find(Src[End]) != std::string_view::npos;
+  if (Separated)
+    return TextEdit::mkRemoval(Range);
+  return TextEdit(Range, " ");
+}
+
 } // namespace
 
 std::shared_ptr<ExprParen> Parser::parseExprParen() {
@@ -55,8 +77,8 @@ std::shared_ptr<ExprParen> Parser::parseExprParen() {
           Diags.emplace_back(Diagnostic::DK_RedundantParen, LParen->range());
       D.tag(DiagnosticTag::Faded);
       Fix &F = D.fix("remove ( and )");
-      F.edit(TextEdit::mkRemoval(LParen->range()));
-      F.edit(TextEdit::mkRemoval(RParen->range()));
+      F.edit(removeParen(Src, LParen->range()));
+      F.edit(removeParen(Src, RParen->range()));
     }
     return std::make_shared<ExprParen>(
         LexerCursorRange{L.lCur(), ER.tok().rCur()}, std::move(Expr),
@@ -69,7 +91,7 @@ std::shared_ptr<ExprParen> Parser::parseExprParen() {
           Diags.emplace_back(Diagnostic::DK_RedundantParen, LParen->range());
       D.tag(DiagnosticTag::Faded);
       Fix &F = D.fix("remove (");
-      F.edit(TextEdit::mkRemoval(LParen->range()));
+      F.edit(removeParen(Src, LParen->range()));
     }
     return std::make_shared<ExprParen>(
         LexerCursorRange{L.lCur(), LastToken->rCur()}, std::move(Expr),
-- 
2.43.0


From 1eee1189bc4cede6d4c1655ecbb3530d6ee84b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:08 +0000
Subject: [PATCH 25/86] fix: do not glue inserted keywords to identifiers in
 quick fixes

---
 libnixf/src/Parse/ParseExpr.cpp    |  2 +-
 libnixf/src/Parse/ParseSupport.cpp | 17 ++++++++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Parse/ParseExpr.cpp b/libnixf/src/Parse/ParseExpr.cpp
index dd7cd10..5eb7b54 100644
--- a/libnixf/src/Parse/ParseExpr.cpp
+++ b/libnixf/src/Parse/ParseExpr.cpp
@@ -211,7 +211,7 @@ std::shared_ptr<ExprIf> Parser::parseExprIf() {
     Diagnostic &D = diagNullExpr(Diags, LastToken->rCur(), "condition");
     D.fix("remove `if` keyword").edit(TextEdit::mkRemoval(TokIf.range()));
     D.fix("insert dummy condition")
-        .edit(TextEdit::mkInsertion(TokIf.rCur(), "true"));
+        .edit(TextEdit::mkInsertion(TokIf.rCur(), " true"));
 
     if (peek().kind() != tok_kw_then)
       return std::make_shared<ExprIf>(LexerCursorRange{LCur, LastToken->rCur()},
diff --git a/libnixf/src/Parse/ParseSupport.cpp b/libnixf/src/Parse/ParseSupport.cpp
index 48a8d36..afc56a4 100644
--- a/libnixf/src/Parse/ParseSupport.cpp
+++ b/libnixf/src/Parse/ParseSupport.cpp
@@ -95,6 +95,12 @@ std::optional<LexerCursorRange> Parser::consumeAsUnknown() {
   return LexerCursorRange{Begin, LastToken->rCur()};
 }
 
+/// \brief Whether \p C may be a part of identifiers or keywords.
+static bool isWord(char C) {
+  return (C >= 'a' && C <= 'z') || (C >= 'A' && C <= 'Z') ||
+         (C >= '0' && C <= '9') || C == '_' || C == '-' || C == '\'';
+}
+
 Parser::ExpectResult Parser::expect(TokenKind Kind) {
   auto Sync = withSync(Kind);
   if (Token Tok = peek(); Tok.kind() == Kind) {
@@ -114,7 +120,16 @@ Parser::ExpectResult Parser::expect(TokenKind Kind) {
   Diagnostic &D =
       Diags.emplace_back(Diagnostic::DK_Expected, LexerCursorRange(Insert));
   D << std::string(tok::spelling(Kind));
+  // Keywords must be separated from the identifiers around, e.g. "if a" then
+  std::string NewText(tok::spelling(Kind));
+  if (isWord(NewText.front())) {
+    std::size_t Pos = Insert.offset();
+    if (Pos > 0 && isWord(Src[Pos - 1]))
+      NewText.insert(0, " ");
+    if (Pos < Src.size() && isWord(Src[Pos]))
+      NewText += " ";
+  }
   D.fix("insert " + std::string(tok::spelling(Kind)))
-      .edit(TextEdit::mkInsertion(Insert, std::string(tok::spelling(Kind))));
+      .edit(TextEdit::mkInsertion(Insert, std::move(NewText)));
   return {&D};
 }
-- 
2.43.0


From 5c910a67bc3bf7fea6ec67dc5bcada6509ddef63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 26/86] fix: do not prefix inherited names with builtins. in
 quick fixes

---
 libnixf/include/nixf/Sema/VariableLookup.h |  7 +++++-
 libnixf/src/Sema/VariableLookup.cpp        | 25 +++++++++++++++++-----
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/libnixf/include/nixf/Sema/VariableLookup.h b/libnixf/include/nixf/Sema/VariableLookup.h
index 57bea6e..eecb49b 100644
--- a/libnixf/include/nixf/Sema/VariableLookup.h
+++ b/libnixf/include/nixf/Sema/VariableLookup.h
@@ -138,7 +138,12 @@ private:
   // name lookup, for later references like code completions.
   EnvMap Envs;
 
-  void lookupVar(const ExprVar &Var, const std::shared_ptr<EnvNode> &Env);
+  /// \param Inherited The variable is desugared from inherit name;
+  void lookupVar(const ExprVar &Var, const std::shared_ptr<EnvNode> &Env,
+                 bool Inherited = false);
+
+  /// \brief Visit the variable desugared from inherit name;
+  void dfsInherited(const Attribute &Attr, const std::shared_ptr<EnvNode> &Env);
 
   void checkBuiltins(const ExprSelect &Sel,
                      const std::shared_ptr<EnvNode> &Env);
diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 4d1a3a2..d42ba1d 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -181,7 +181,8 @@ void VariableLookupAnalysis::emitEnvLivenessWarning(
 }
 
 void VariableLookupAnalysis::lookupVar(const ExprVar &Var,
-                                       const std::shared_ptr<EnvNode> &Env) {
+                                       const std::shared_ptr<EnvNode> &Env,
+                                       bool Inherited) {
   const auto &Name = Var.id().name();
   const auto *CurEnv = Env.get();
   std::shared_ptr<Definition> Def;
@@ -228,8 +229,10 @@ void VariableLookupAnalysis::lookupVar(const ExprVar &Var,
     case PrimopLookupResult::PrefixedFound: {
       Diagnostic &D =
           Diags.emplace_back(Diagnostic::DK_PrimOpNeedsPrefix, Var.range());
-      D.fix("use `builtins.` prefix")
-          .edit(TextEdit::mkInsertion(Var.range().lCur(), "builtins."));
+      // inherit builtins.foo; is not allowed.
+      if (!Inherited)
+        D.fix("use `builtins.` prefix")
+            .edit(TextEdit::mkInsertion(Var.range().lCur(), "builtins."));
       Results.insert(
           {&Var, LookupResult{LookupResultKind::Undefined, nullptr}});
       break;
@@ -323,6 +326,15 @@ void VariableLookupAnalysis::dfsDynamicAttrs(
   }
 }
 
+void VariableLookupAnalysis::dfsInherited(
+    const Attribute &Attr, const std::shared_ptr<EnvNode> &Env) {
+  assert(Attr.value() && Attr.value()->kind() == Node::NK_ExprVar &&
+         "inherited names are desugared to variables");
+  const auto &Var = static_cast<const ExprVar &>(*Attr.value());
+  if (Envs.insert({&Var, Env}).second)
+    lookupVar(Var, Env, /*Inherited=*/true);
+}
+
 void VariableLookupAnalysis::dfsInheritExprs(
     const Binds &B, const std::shared_ptr<EnvNode> &Env) {
   for (const auto &Bind : B.bindings()) {
@@ -356,7 +368,7 @@ std::shared_ptr<EnvNode> VariableLookupAnalysis::dfsAttrs(
         dfs(*Attr.value(), NewEnv);
       } else {
         assert(Attr.kind() == Attribute::AttributeKind::Inherit);
-        dfs(*Attr.value(), Env);
+        dfsInherited(Attr, Env);
       }
     }
 
@@ -368,7 +380,10 @@ std::shared_ptr<EnvNode> VariableLookupAnalysis::dfsAttrs(
   for (const auto &[_, Attr] : SA.staticAttrs()) {
     if (!Attr.value())
       continue;
-    dfs(*Attr.value(), Env);
+    if (Attr.kind() == Attribute::AttributeKind::Inherit)
+      dfsInherited(Attr, Env);
+    else
+      dfs(*Attr.value(), Env);
   }
 
   dfsDynamicAttrs(SA.dynamicAttrs(), Env);
-- 
2.43.0


From 10956f626a264dc5d32a16cc5d5d0c3359c5b494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:42 +0000
Subject: [PATCH 27/86] fix: do not insert a second comma when moving the
 ellipsis after a trailing comma

---
 libnixf/src/Sema/SemaActions.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libnixf/src/Sema/SemaActions.cpp b/libnixf/src/Sema/SemaActions.cpp
index 7fdd446..164159c 100644
--- a/libnixf/src/Sema/SemaActions.cpp
+++ b/libnixf/src/Sema/SemaActions.cpp
@@ -219,10 +219,14 @@ void Sema::checkFormalEllipsis(const FormalVector &FV) {
       Fix &Fx = D.fix("move ellipsis to the tail");
       removeFormal(Fx, It, FV);
       std::string NewText(CurF.src(Src));
-      // If current formal does not contain the seperator ", "
-      // Insert a new comma to seperate it from the last formal
-      if (!CurF.comma())
+      if (LastF.comma() && !LastF.id()) {
+        // The tail is a trailing comma, it seperates already.
+        NewText = std::string(" ").append(CurF.ellipsis().src(Src));
+      } else if (!CurF.comma()) {
+        // If current formal does not contain the seperator ", "
+        // Insert a new comma to seperate it from the last formal
         NewText = std::string(", ").append(NewText);
+      }
       Fx.edit(TextEdit::mkInsertion(LastF.rCur(), std::move(NewText)));
     }
   }
-- 
2.43.0


From 92acd10aef529259316a719833dd2e8748313155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:36 +0000
Subject: [PATCH 28/86] fix: do not lex "|||>" as a single operator

---
 libnixf/src/Parse/Lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index ae0c0cf..b987be0 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -582,7 +582,7 @@ Token Lexer::lex() {
   case '|':
     if (consumePrefix("||"))
       Tok = tok_op_or;
-    if (consumePrefix("|>"))
+    else if (consumePrefix("|>"))
       Tok = tok_op_pipe_into;
     break;
   case '!':
-- 
2.43.0


From 405bc71343e540ae1548629d8eb15682ab9dfbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 29/86] fix: do not abort nixf-tidy on invalid UTF-8

---
 libnixf/tools/nixf-tidy.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libnixf/tools/nixf-tidy.cpp b/libnixf/tools/nixf-tidy.cpp
index b4c575b..6c1f8fe 100644
--- a/libnixf/tools/nixf-tidy.cpp
+++ b/libnixf/tools/nixf-tidy.cpp
@@ -48,8 +48,9 @@ int main(int Argc, const char *Argv[]) {
   nlohmann::json V;
   to_json(V, Diags);
 
-  if (PrettyPrint)
-    std::cout << std::setw(4);
-  std::cout << V << "\n";
+  // The source may contain arbitrary bytes, don't throw on invalid UTF-8.
+  std::cout << V.dump(PrettyPrint ? 4 : -1, ' ', /*ensure_ascii=*/false,
+                      nlohmann::json::error_handler_t::replace)
+            << "\n";
   return 0;
 }
-- 
2.43.0


From 8ccfab2b9d970656ec05ef7382fa3bf683b0cfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:33 +0000
Subject: [PATCH 30/86] fix: remove the expression of an empty inherit along
 with it

---
 libnixf/src/Parse/ParseAttrs.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/ParseAttrs.cpp b/libnixf/src/Parse/ParseAttrs.cpp
index 3eab21c..ff66388 100644
--- a/libnixf/src/Parse/ParseAttrs.cpp
+++ b/libnixf/src/Parse/ParseAttrs.cpp
@@ -128,6 +128,7 @@ std::shared_ptr<Inherit> Parser::parseInherit() {
       ER.diag().note(Note::NK_ToMachThis, Tok.range())
           << std::string(tok::spelling(tok_l_paren));
   }
+  LexerCursor NamesBegin = LastToken->rCur();
   while (true) {
     if (auto AttrName = parseAttrName()) {
       AttrNames.emplace_back(std::move(AttrName));
@@ -148,7 +149,8 @@ std::shared_ptr<Inherit> Parser::parseInherit() {
         Diags.emplace_back(Diagnostic::DK_EmptyInherit, TokInherit.range());
     D.tag(DiagnosticTag::Faded);
     Fix &F = D.fix("remove `inherit` keyword");
-    F.edit(TextEdit::mkRemoval(TokInherit.range()));
+    // Remove "(expr)" also.
+    F.edit(TextEdit::mkRemoval({TokInherit.lCur(), NamesBegin}));
     if (ER.ok()) {
       // Remove ";" also.
       F.edit(TextEdit::mkRemoval(ER.tok().range()));
-- 
2.43.0


From 7954499717c3a9234496a1fb69eaf8bf6844110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:00 +0000
Subject: [PATCH 31/86] fix: do not remove the builtins. prefix of quoted
 names, and of selections with a default

---
 libnixf/src/Sema/VariableLookup.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index d42ba1d..3ad5ee3 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -527,6 +527,9 @@ void VariableLookupAnalysis::checkBuiltins(
       return;
     Diagnostic &D = Diags.emplace_back(Diagnostic::DK_PrimOpRemovablePrefix,
                                        Builtins.range());
+    // Without the prefix, "map" is a string, and `map or x` is not a selection.
+    if (First.kind() != AttrName::ANK_ID || Sel.defaultExpr())
+      return;
     Fix &F =
         D.fix("remove `builtins.` prefix")
             .edit(TextEdit::mkRemoval(Builtins.range())); // remove `builtins`
-- 
2.43.0


From 3de25768b81208e9bfdd16c81610093cdfed3306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:20 +0000
Subject: [PATCH 32/86] fix: do not glue a comma to URIs when removing
 redundant parentheses

---
 libnixf/src/Parse/ParseSimple.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/ParseSimple.cpp b/libnixf/src/Parse/ParseSimple.cpp
index 6e2954a..4c833e2 100644
--- a/libnixf/src/Parse/ParseSimple.cpp
+++ b/libnixf/src/Parse/ParseSimple.cpp
@@ -44,7 +44,7 @@ TextEdit removeParen(std::string_view Src, LexerCursorRange Range) {
   std::size_t End = Range.rCur().offset();
   constexpr std::string_view Spaces = " \t\r\n";
   constexpr std::string_view Open = "([{;,=";
-  constexpr std::string_view Close = ")]};,";
+  constexpr std::string_view Close = ")]};"; // "," may be a part of URIs
   auto IsBoundary = [&](std::size_t Pos) {
     return Spaces.find(Src[Pos]) != std::string_view::npos;
   };
-- 
2.43.0


From afc89d97884d4d08ac6ac17c252f8ea369c9dbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 33/86] fix: read pending messages after the client hung up

---
 nixd/lspserver/src/Connection.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index 9d6ffd2..c0e4470 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -174,14 +174,20 @@ bool readLine(int fd, const std::atomic<bool> &Close,
     char Ch;
     // FIXME: inefficient
     int Poll = poll(FDs.data(), FDs.size(), 1000);
-    if (Poll < 0)
+    if (Poll < 0) {
+      if (errno == EINTR)
+        continue;
       return false;
+    }
     if (Close)
       return false;
 
     // POLLHUB: hang up from the writer side
     // POLLNVAL: invalid request (fd not open)
-    if (FDs[0].revents & (POLLHUP | POLLNVAL)) {
+    //
+    // There may be pending messages after the writer hung up, read them first.
+    if (!(FDs[0].revents & POLLIN) &&
+        (FDs[0].revents & (POLLHUP | POLLERR | POLLNVAL))) {
       return false;
     }
 
-- 
2.43.0


From a7e4f2f0a237b20984d521afdae65f4927c79a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:35 +0000
Subject: [PATCH 34/86] fix: handle read errors and absurd lengths of messages

---
 nixd/lspserver/src/Connection.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index c0e4470..7e19a56 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -31,6 +31,9 @@ std::string jsonToString(llvm::json::Value &Message) {
   return Result;
 }
 
+/// Longer messages are refused, instead of running out of memory.
+constexpr unsigned long long MaxContentLength = 1 << 30; // 1 GiB
+
 class ReadEOF : public llvm::ErrorInfo<ReadEOF> {
 public:
   static char ID;
@@ -224,7 +227,7 @@ InboundPort::readStandardMessage(std::string &Buffer) {
 
     // Content-Length is a mandatory header, and the only one we handle.
     if (LineRef.consume_front("Content-Length: ")) {
-      llvm::getAsUnsignedInteger(LineRef.trim(), 0, ContentLength);
+      llvm::getAsUnsignedInteger(LineRef.trim(), 10, ContentLength);
       continue;
     }
     // An empty line indicates the end of headers.
@@ -234,12 +237,23 @@ InboundPort::readStandardMessage(std::string &Buffer) {
     // It's another header, ignore it.
   }
 
+  if (ContentLength > MaxContentLength) {
+    elog("Refusing to read a message with Content-Length: {0}", ContentLength);
+    return llvm::make_error<ReadEOF>();
+  }
+
   Buffer.resize(ContentLength);
-  for (size_t Pos = 0, Read; Pos < ContentLength; Pos += Read) {
+  ssize_t Read = 0;
+  for (size_t Pos = 0; Pos < ContentLength; Pos += Read) {
 
     Read = read(In, Buffer.data() + Pos, ContentLength - Pos);
 
-    if (Read == 0) {
+    if (Read == -1 && errno == EINTR) {
+      Read = 0;
+      continue;
+    }
+
+    if (Read <= 0) {
       elog("Input was aborted. Read only {0} bytes of expected {1}.", Pos,
            ContentLength);
       return llvm::make_error<ReadEOF>();
-- 
2.43.0


From 2ced3a4281e5078a81e578d485917275a5aae69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 35/86] fix: do not exit on a message that is not valid JSON

---
 nixd/lspserver/src/Connection.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index 7e19a56..4c7bb44 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -345,15 +345,16 @@ void InboundPort::loop(MessageHandler &Handler) {
         return;
     } else {
       // Handle error while reading message.
-      return [&]() {
-        auto Err = Message.takeError();
-        if (Err.isA<ReadEOF>())
-          return; // Stop reading.
-        else if (Err.isA<llvm::json::ParseError>())
-          elog("The received json cannot be parsed, reason: {0}", Err);
-        else
-          elog("Error reading message: {0}", llvm::toString(std::move(Err)));
-      }();
+      auto Err = Message.takeError();
+      if (Err.isA<ReadEOF>()) {
+        llvm::consumeError(std::move(Err));
+        return; // Stop reading.
+      }
+      // The message is consumed entirely, continue with the next one.
+      if (Err.isA<llvm::json::ParseError>())
+        elog("The received json cannot be parsed, reason: {0}", std::move(Err));
+      else
+        elog("Error reading message: {0}", std::move(Err));
     }
   }
 }
-- 
2.43.0


From 19df2fe7286a284739f9872098f5724cfed4a2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:07 +0000
Subject: [PATCH 36/86] fix: reply to requests of unknown methods, instead of
 exiting

---
 nixd/lspserver/src/LSPServer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index abb8177..c6898a0 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -46,7 +46,9 @@ bool LSPServer::onCall(llvm::StringRef Method, llvm::json::Value Params,
                       }
                     });
   else
-    return false;
+    Out->reply(std::move(ID), llvm::make_error<LSPError>(
+                                  "method not found: " + Method.str(),
+                                  ErrorCode::MethodNotFound));
   return true;
 }
 
-- 
2.43.0


From 22b38f840a9bfd7205d5d07dfe338427de8449a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 37/86] fix: ignore replies with unknown IDs, instead of
 crashing

---
 nixd/lspserver/src/LSPServer.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index c6898a0..0c4dfac 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -7,8 +7,8 @@
 #include <llvm/Support/Error.h>
 #include <llvm/Support/JSON.h>
 
+#include <climits>
 #include <mutex>
-#include <stdexcept>
 
 namespace lspserver {
 
@@ -58,19 +58,20 @@ bool LSPServer::onReply(llvm::json::Value ID,
   std::optional<Callback<llvm::json::Value>> CB;
 
   if (auto OptI = ID.getAsInteger()) {
-    if (LLVM_UNLIKELY(*OptI > INT_MAX))
-      throw std::logic_error("jsonrpc: id is too large (> INT_MAX)");
     std::lock_guard<std::mutex> Guard(PendingCallsLock);
-    auto I = static_cast<int>(*OptI);
-    if (PendingCalls.contains(I)) {
-      CB = std::move(PendingCalls[I]);
-      PendingCalls.erase(I);
+    // Other IDs were never allocated by us.
+    if (*OptI > 0 && *OptI <= INT_MAX) {
+      auto I = static_cast<int>(*OptI);
+      if (PendingCalls.contains(I)) {
+        CB = std::move(PendingCalls[I]);
+        PendingCalls.erase(I);
+      }
     }
-  } else {
-    throw std::logic_error("jsonrpc: not an integer message ID");
   }
   if (LLVM_UNLIKELY(!CB)) {
     elog("received a reply with ID {0}, but there was no such call", ID);
+    if (!Result)
+      llvm::consumeError(Result.takeError());
     // Ignore this error
     return true;
   }
-- 
2.43.0


From c6325fe6a8bdc19b2521c2c2f364777ede7615a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:17 +0000
Subject: [PATCH 38/86] fix: do not hold the lock of pending calls while
 invoking callbacks

---
 nixd/lspserver/src/LSPServer.cpp | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index 0c4dfac..b130a1f 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -82,20 +82,26 @@ bool LSPServer::onReply(llvm::json::Value ID,
 }
 
 int LSPServer::bindReply(Callback<llvm::json::Value> CB) {
-  std::lock_guard<std::mutex> _(PendingCallsLock);
-  int Ret = TopID++;
-  PendingCalls[Ret] = std::move(CB);
+  std::optional<std::pair<int, Callback<llvm::json::Value>>> Oldest;
+  int Ret;
+  {
+    std::lock_guard<std::mutex> _(PendingCallsLock);
+    Ret = TopID++;
+    PendingCalls[Ret] = std::move(CB);
 
-  // Check the limit
-  if (PendingCalls.size() > MaxPendingCalls) {
-    auto Begin = PendingCalls.begin();
-    auto [ID, OldestCallback] =
-        std::tuple{Begin->first, std::move(Begin->second)};
-    OldestCallback(
-        error("failed to receive a client reply for request ({0})", ID));
+    // Check the limit
+    if (PendingCalls.size() > MaxPendingCalls) {
+      auto Begin = PendingCalls.begin();
+      Oldest.emplace(Begin->first, std::move(Begin->second));
+      PendingCalls.erase(Begin);
+    }
+  }
+  // Invoke the callback outside of the critical zone, it may send other calls.
+  if (Oldest) {
     elog("more than {0} outstanding LSP calls, forgetting about {1}",
-         MaxPendingCalls, ID);
-    PendingCalls.erase(Begin);
+         MaxPendingCalls, Oldest->first);
+    Oldest->second(error("failed to receive a client reply for request ({0})",
+                         Oldest->first));
   }
   return Ret;
 }
-- 
2.43.0


From 3b8715306db41b4d3c1434d00c5c8a9f2ca3af8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:46 +0000
Subject: [PATCH 39/86] fix: carry over when incrementing versions of drafts

---
 nixd/lspserver/src/DraftStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nixd/lspserver/src/DraftStore.cpp b/nixd/lspserver/src/DraftStore.cpp
index 0170971..53e37e7 100644
--- a/nixd/lspserver/src/DraftStore.cpp
+++ b/nixd/lspserver/src/DraftStore.cpp
@@ -54,7 +54,7 @@ static void increment(std::string &S) {
       ++*I;
       break;
     }
-    *I = '0'; // and keep incrementing to the left.
+    *I++ = '0'; // and keep incrementing to the left.
   }
 }
 
-- 
2.43.0


From c5d64bcd77642ca5b6dca586fe6045fa7d900f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 40/86] fix: keep backslashes of paths in file URIs

---
 nixd/lspserver/src/URI.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nixd/lspserver/src/URI.cpp b/nixd/lspserver/src/URI.cpp
index 8fee314..2db77cd 100644
--- a/nixd/lspserver/src/URI.cpp
+++ b/nixd/lspserver/src/URI.cpp
@@ -49,7 +49,9 @@ public:
       Body.consume_front("/");
     }
     Path.append(Body);
-    llvm::sys::path::native(Path);
+    // Backslashes are ordinary characters in paths of POSIX systems.
+    if (llvm::sys::path::is_style_windows(llvm::sys::path::Style::native))
+      llvm::sys::path::native(Path);
     return std::string(Path);
   }
 
-- 
2.43.0


From 0c3b16e4f4e563f22d543920531aa9f4c8141039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 41/86] fix: do not abort on file URIs of a network root, e.g.
 file:////server

---
 nixd/lspserver/src/URI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nixd/lspserver/src/URI.cpp b/nixd/lspserver/src/URI.cpp
index 2db77cd..108bbce 100644
--- a/nixd/lspserver/src/URI.cpp
+++ b/nixd/lspserver/src/URI.cpp
@@ -60,7 +60,7 @@ public:
     std::string Body;
     llvm::StringRef Authority;
     llvm::StringRef Root = llvm::sys::path::root_name(AbsolutePath);
-    if (isNetworkPath(Root)) {
+    if (isNetworkPath(Root) && Root.size() < AbsolutePath.size()) {
       // Windows UNC paths e.g. \\server\share => file://server/share
       Authority = Root.drop_front(2);
       AbsolutePath.consume_front(Root);
-- 
2.43.0


From 70aab067004a23817d1aa77d33d373afe69c862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:05 +0000
Subject: [PATCH 42/86] fix: decode resource operations of workspace edits

---
 nixd/lspserver/src/Protocol.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nixd/lspserver/src/Protocol.cpp b/nixd/lspserver/src/Protocol.cpp
index 6ba5110..2055b26 100644
--- a/nixd/lspserver/src/Protocol.cpp
+++ b/nixd/lspserver/src/Protocol.cpp
@@ -319,7 +319,8 @@ bool fromJSON(const llvm::json::Value &Params, DocumentChange &DC,
   if (auto Kind = O->getString("kind")) {
     if (*Kind == "create") {
       CreateFile CF;
-      if (!fromJSON(Params, CF.uri, P.field("uri")))
+      llvm::json::ObjectMapper M(Params, P);
+      if (!M || !M.map("uri", CF.uri))
         return false;
       // Options are optional, parse if present
       if (const auto *OptsObj = O->getObject("options")) {
@@ -336,8 +337,8 @@ bool fromJSON(const llvm::json::Value &Params, DocumentChange &DC,
     }
     if (*Kind == "rename") {
       RenameFile RF;
-      if (!fromJSON(Params, RF.oldUri, P.field("oldUri")) ||
-          !fromJSON(Params, RF.newUri, P.field("newUri")))
+      llvm::json::ObjectMapper M(Params, P);
+      if (!M || !M.map("oldUri", RF.oldUri) || !M.map("newUri", RF.newUri))
         return false;
       if (const auto *OptsObj = O->getObject("options")) {
         RF.options = RenameFileOptions{};
@@ -353,7 +354,8 @@ bool fromJSON(const llvm::json::Value &Params, DocumentChange &DC,
     }
     if (*Kind == "delete") {
       DeleteFile DF;
-      if (!fromJSON(Params, DF.uri, P.field("uri")))
+      llvm::json::ObjectMapper M(Params, P);
+      if (!M || !M.map("uri", DF.uri))
         return false;
       if (const auto *OptsObj = O->getObject("options")) {
         DF.options = DeleteFileOptions{};
-- 
2.43.0


From 62d1f5bd98292838a32452f4794e6d74edaa8e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 43/86] fix: decode completion items without a kind or format

---
 nixd/lspserver/src/Protocol.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nixd/lspserver/src/Protocol.cpp b/nixd/lspserver/src/Protocol.cpp
index 2055b26..694be2f 100644
--- a/nixd/lspserver/src/Protocol.cpp
+++ b/nixd/lspserver/src/Protocol.cpp
@@ -1211,14 +1211,17 @@ llvm::json::Value toJSON(const CompletionItem &CI) {
 bool fromJSON(const llvm::json::Value &Params, CompletionItem &R,
               llvm::json::Path P) {
   llvm::json::ObjectMapper O(Params, P);
-  int Kind;
+  if (!O)
+    return false;
+  int Kind = static_cast<int>(CompletionItemKind::Missing);
   if (!O.mapOptional("kind", Kind))
     return false;
   R.kind = static_cast<CompletionItemKind>(Kind);
 
-  if (!O.mapOptional("insertTextFormat", Kind))
+  int Format = static_cast<int>(InsertTextFormat::Missing);
+  if (!O.mapOptional("insertTextFormat", Format))
     return false;
-  R.insertTextFormat = static_cast<InsertTextFormat>(Kind);
+  R.insertTextFormat = static_cast<InsertTextFormat>(Format);
   return O                                                              //
          && O.map("label", R.label)                                     //
          && O.mapOptional("detail", R.detail)                           //
-- 
2.43.0


From c69a696ae91dbc6e2264dc783df50cc174d88af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 44/86] fix: do not abort on plain documentation of completion
 items, or unknown kinds of markup

---
 nixd/lspserver/src/Protocol.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/nixd/lspserver/src/Protocol.cpp b/nixd/lspserver/src/Protocol.cpp
index 694be2f..2827d9e 100644
--- a/nixd/lspserver/src/Protocol.cpp
+++ b/nixd/lspserver/src/Protocol.cpp
@@ -1076,14 +1076,6 @@ static llvm::StringRef toTextKind(MarkupKind Kind) {
   llvm_unreachable("Invalid MarkupKind");
 }
 
-static MarkupKind fromTextKind(llvm::StringRef Kind) {
-  if (Kind == "plaintext")
-    return MarkupKind::PlainText;
-  if (Kind == "markdown")
-    return MarkupKind::Markdown;
-  llvm_unreachable("Invalid MarkupKind");
-}
-
 bool fromJSON(const llvm::json::Value &V, MarkupKind &K, llvm::json::Path P) {
   auto Str = V.getAsString();
   if (!Str) {
@@ -1117,11 +1109,14 @@ llvm::json::Value toJSON(const MarkupContent &MC) {
 
 bool fromJSON(const llvm::json::Value &Params, MarkupContent &R,
               llvm::json::Path P) {
+  // Documentation may be a plain string, too.
+  if (auto Str = Params.getAsString()) {
+    R.kind = MarkupKind::PlainText;
+    R.value = Str->str();
+    return true;
+  }
   llvm::json::ObjectMapper O(Params, P);
-  std::string MarkupKind;
-  O.map("kind", MarkupKind);
-  R.kind = fromTextKind(MarkupKind);
-  return O.mapOptional("value", R.value);
+  return O && O.map("kind", R.kind) && O.mapOptional("value", R.value);
 }
 
 llvm::json::Value toJSON(const Hover &H) {
-- 
2.43.0


From 70ed4b65e31f93a76f12ef36a398c89803bbd6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:35 +0000
Subject: [PATCH 45/86] fix: send the characters of folding ranges that are
 zero

---
 nixd/lspserver/src/Protocol.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/nixd/lspserver/src/Protocol.cpp b/nixd/lspserver/src/Protocol.cpp
index 2827d9e..01616b3 100644
--- a/nixd/lspserver/src/Protocol.cpp
+++ b/nixd/lspserver/src/Protocol.cpp
@@ -1678,12 +1678,10 @@ const llvm::StringLiteral FoldingRange::IMPORT_KIND = "import";
 llvm::json::Value toJSON(const FoldingRange &Range) {
   llvm::json::Object Result{
       {"startLine", Range.startLine},
+      {"startCharacter", Range.startCharacter},
       {"endLine", Range.endLine},
+      {"endCharacter", Range.endCharacter},
   };
-  if (Range.startCharacter)
-    Result["startCharacter"] = Range.startCharacter;
-  if (Range.endCharacter)
-    Result["endCharacter"] = Range.endCharacter;
   if (!Range.kind.empty())
     Result["kind"] = Range.kind;
   return Result;
-- 
2.43.0


From 7181093a612c448cb3a6f8e5d293f81c8c55c44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 46/86] fix: do not abort on file URIs without an absolute
 path, e.g. file:///C:/x

---
 nixd/lspserver/src/URI.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nixd/lspserver/src/URI.cpp b/nixd/lspserver/src/URI.cpp
index 108bbce..9ebc21c 100644
--- a/nixd/lspserver/src/URI.cpp
+++ b/nixd/lspserver/src/URI.cpp
@@ -44,7 +44,9 @@ public:
     if (!Authority.empty()) {
       // Windows UNC paths e.g. file://server/share => \\server\share
       ("//" + Authority).toVector(Path);
-    } else if (isWindowsPath(Body.substr(1))) {
+    } else if (llvm::sys::path::is_style_windows(
+                   llvm::sys::path::Style::native) &&
+               isWindowsPath(Body.substr(1))) {
       // Windows paths e.g. file:///X:/path => X:\path
       Body.consume_front("/");
     }
@@ -52,6 +54,9 @@ public:
     // Backslashes are ordinary characters in paths of POSIX systems.
     if (llvm::sys::path::is_style_windows(llvm::sys::path::Style::native))
       llvm::sys::path::native(Path);
+    // e.g. file:////server, without a share
+    if (!llvm::sys::path::is_absolute(Path))
+      return error("File scheme: not an absolute path: {0}", Path.str());
     return std::string(Path);
   }
 
-- 
2.43.0


From 5db71f1d1e43fea847cd9b4aed0f78a9405d0ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:54 +0000
Subject: [PATCH 47/86] fix: stop the workers before destroying what their
 replies use

---
 nixd/include/nixd/Controller/Controller.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nixd/include/nixd/Controller/Controller.h b/nixd/include/nixd/Controller/Controller.h
index f49fac5..61fabb8 100644
--- a/nixd/include/nixd/Controller/Controller.h
+++ b/nixd/include/nixd/Controller/Controller.h
@@ -254,7 +254,13 @@ public:
   Controller(std::unique_ptr<lspserver::InboundPort> In,
              std::unique_ptr<lspserver::OutboundPort> Out);
 
-  ~Controller() override { Pool.join(); }
+  ~Controller() override {
+    Pool.join();
+    // Stop the workers here. Their replies may still arrive until then, and use
+    // the members declared after them.
+    NixpkgsEval.reset();
+    Options.clear();
+  }
 
   bool isReadyToEval() { return Eval && Eval->ready(); }
 };
-- 
2.43.0


From 6027ec645a0eeb0dcc7dcd8c4aad66384237fc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 48/86] fix: count the length of semantic tokens in UTF-16 code
 units

---
 nixd/lib/Controller/SemanticTokens.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/nixd/lib/Controller/SemanticTokens.cpp b/nixd/lib/Controller/SemanticTokens.cpp
index 42716d9..905ae7a 100644
--- a/nixd/lib/Controller/SemanticTokens.cpp
+++ b/nixd/lib/Controller/SemanticTokens.cpp
@@ -69,16 +69,14 @@ class SemanticTokenBuilder {
 public:
   SemanticTokenBuilder(const VariableLookupAnalysis &VLA, llvm::StringRef Src)
       : VLA(VLA), Src(Src) {}
-  void addImpl(nixf::LexerCursor Pos, unsigned Length, unsigned TokenType,
-               unsigned TokenModifiers) {
-    auto P = toLSPPosition(Src, Pos);
-    Raw.emplace_back(RawSemanticToken{P, Length, TokenType, TokenModifiers});
-  }
-
   void add(const Node &N, unsigned TokenType, unsigned TokenModifiers) {
     if (skip(N))
       return;
-    addImpl(N.lCur(), len(N), TokenType, TokenModifiers);
+    // Lengths are counted in UTF-16 code units, same as positions.
+    auto [Start, End] = toLSPRange(Src, N.range());
+    unsigned Length = End.character - Start.character;
+    Raw.emplace_back(
+        RawSemanticToken{Start, Length, TokenType, TokenModifiers});
   }
 
   static bool skip(const Node &N) {
@@ -86,10 +84,6 @@ public:
     return N.range().lCur().line() != N.range().rCur().line();
   }
 
-  static unsigned len(const Node &N) {
-    return N.range().rCur().offset() - N.range().lCur().offset();
-  }
-
   void dfs(const ExprString &Str) {
     unsigned Modifers = 0;
     if (!Str.isLiteral())
-- 
2.43.0


From 6c15555d4d0dd4636f63dfee11c879e2ad34f53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 49/86] fix: convert positions of requests from UTF-16 code
 units to bytes

---
 nixd/lib/Controller/CodeAction.cpp        |  2 +-
 nixd/lib/Controller/Completion.cpp        |  3 ++-
 nixd/lib/Controller/Convert.cpp           | 21 +++++++++++++++++----
 nixd/lib/Controller/Convert.h             |  7 +++++--
 nixd/lib/Controller/Definition.cpp        |  3 ++-
 nixd/lib/Controller/DocumentHighlight.cpp |  3 ++-
 nixd/lib/Controller/FindReferences.cpp    |  3 ++-
 nixd/lib/Controller/Hover.cpp             |  2 +-
 nixd/lib/Controller/InlayHints.cpp        |  2 +-
 nixd/lib/Controller/Rename.cpp            |  6 ++++--
 10 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/nixd/lib/Controller/CodeAction.cpp b/nixd/lib/Controller/CodeAction.cpp
index 6e73711..4b1e69d 100644
--- a/nixd/lib/Controller/CodeAction.cpp
+++ b/nixd/lib/Controller/CodeAction.cpp
@@ -82,7 +82,7 @@ void Controller::onCodeAction(const lspserver::CodeActionParams &Params,
 
       // Add refactoring code actions based on cursor position
       if (TU->ast() && TU->parentMap()) {
-        nixf::PositionRange NixfRange = toNixfRange(Range);
+        nixf::PositionRange NixfRange = toNixfRange(TU->src(), Range);
         if (const nixf::Node *N = TU->ast()->descend(NixfRange)) {
           addAttrNameActions(*N, *TU->parentMap(), FileURI, TU->src(), Actions);
           addConvertToInheritAction(*N, *TU->parentMap(), FileURI, TU->src(),
diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index ffd3e5f..f0b7898 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -465,11 +465,12 @@ void Controller::onCompletion(const CompletionParams &Params,
                               Callback<CompletionList> Reply) {
   using CheckTy = CompletionList;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     const auto File = URI.file().str();
     return Reply([&]() -> llvm::Expected<CompletionList> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
 
       const auto *Desc = AST->descend({Pos, Pos});
       CheckDefault(Desc && canCompleteAt(*Desc));
diff --git a/nixd/lib/Controller/Convert.cpp b/nixd/lib/Controller/Convert.cpp
index 8d969f2..9b620da 100644
--- a/nixd/lib/Controller/Convert.cpp
+++ b/nixd/lib/Controller/Convert.cpp
@@ -29,12 +29,25 @@ lspserver::Position nixd::toLSPPosition(llvm::StringRef Code,
   return lspserver::offsetToPosition(Code, P.offset());
 }
 
-nixf::Position nixd::toNixfPosition(const lspserver::Position &P) {
-  return {P.line, P.character};
+nixf::Position nixd::toNixfPosition(llvm::StringRef Code,
+                                    const lspserver::Position &P) {
+  llvm::Expected<size_t> LineStart = positionToOffset(Code, {P.line, 0});
+  if (!LineStart) {
+    // There is no such line, thus nothing could be found there.
+    llvm::consumeError(LineStart.takeError());
+    return {P.line, P.character};
+  }
+  llvm::Expected<size_t> Offset = positionToOffset(Code, P);
+  if (!Offset) {
+    llvm::consumeError(Offset.takeError());
+    return {P.line, P.character};
+  }
+  return {P.line, static_cast<int64_t>(*Offset - *LineStart)};
 }
 
-nixf::PositionRange nixd::toNixfRange(const lspserver::Range &P) {
-  return {toNixfPosition(P.start), toNixfPosition(P.end)};
+nixf::PositionRange nixd::toNixfRange(llvm::StringRef Code,
+                                      const lspserver::Range &P) {
+  return {toNixfPosition(Code, P.start), toNixfPosition(Code, P.end)};
 }
 
 lspserver::Range nixd::toLSPRange(llvm::StringRef Code,
diff --git a/nixd/lib/Controller/Convert.h b/nixd/lib/Controller/Convert.h
index d203b01..ebc48ec 100644
--- a/nixd/lib/Controller/Convert.h
+++ b/nixd/lib/Controller/Convert.h
@@ -13,9 +13,12 @@ namespace nixd {
 lspserver::Position toLSPPosition(llvm::StringRef Code,
                                   const nixf::LexerCursor &P);
 
-nixf::Position toNixfPosition(const lspserver::Position &P);
+/// Columns of LSP positions count UTF-16 code units, those of nixf count bytes.
+nixf::Position toNixfPosition(llvm::StringRef Code,
+                              const lspserver::Position &P);
 
-nixf::PositionRange toNixfRange(const lspserver::Range &P);
+nixf::PositionRange toNixfRange(llvm::StringRef Code,
+                                const lspserver::Range &P);
 
 lspserver::Range toLSPRange(llvm::StringRef Code,
                             const nixf::LexerCursorRange &R);
diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index 5982195..62223ae 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -380,11 +380,12 @@ void Controller::onDefinition(const TextDocumentPositionParams &Params,
                               Callback<llvm::json::Value> Reply) {
   using CheckTy = Locations;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     const auto File = URI.file().str();
     return Reply(squash([&]() -> llvm::Expected<Locations> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto &VLA = *TU->variableLookup();
       const auto &PM = *TU->parentMap();
       const auto &N = *CheckDefault(AST->descend({Pos, Pos}));
diff --git a/nixd/lib/Controller/DocumentHighlight.cpp b/nixd/lib/Controller/DocumentHighlight.cpp
index e7fcdb9..3379364 100644
--- a/nixd/lib/Controller/DocumentHighlight.cpp
+++ b/nixd/lib/Controller/DocumentHighlight.cpp
@@ -58,11 +58,12 @@ void Controller::onDocumentHighlight(
     Callback<std::vector<DocumentHighlight>> Reply) {
   using CheckTy = std::vector<DocumentHighlight>;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     std::string File(URI.file());
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
 
       const auto &Desc = *CheckDefault(AST->descend({Pos, Pos}));
       try {
diff --git a/nixd/lib/Controller/FindReferences.cpp b/nixd/lib/Controller/FindReferences.cpp
index 041388b..5e4251e 100644
--- a/nixd/lib/Controller/FindReferences.cpp
+++ b/nixd/lib/Controller/FindReferences.cpp
@@ -51,11 +51,12 @@ void Controller::onReferences(const TextDocumentPositionParams &Params,
                               Callback<std::vector<Location>> Reply) {
   using CheckTy = std::vector<Location>;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     std::string File(URI.file());
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto &Desc = CheckDefault(AST->descend({Pos, Pos}));
       const auto &PM = *TU->parentMap();
       const auto &VLA = *TU->variableLookup();
diff --git a/nixd/lib/Controller/Hover.cpp b/nixd/lib/Controller/Hover.cpp
index 556a2f9..286292a 100644
--- a/nixd/lib/Controller/Hover.cpp
+++ b/nixd/lib/Controller/Hover.cpp
@@ -213,7 +213,7 @@ void Controller::onHover(const TextDocumentPositionParams &Params,
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
-      const auto Pos = nixf::Position{RawPos.line, RawPos.character};
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto &N = *CheckDefault(AST->descend({Pos, Pos}));
 
       const auto Name = std::string(N.name());
diff --git a/nixd/lib/Controller/InlayHints.cpp b/nixd/lib/Controller/InlayHints.cpp
index 2938e0a..4e505fd 100644
--- a/nixd/lib/Controller/InlayHints.cpp
+++ b/nixd/lib/Controller/InlayHints.cpp
@@ -65,7 +65,7 @@ public:
       : NixpkgsProvider(NixpkgsProvider), VLA(VLA), PMA(PMA), Hints(Hints),
         Src(Src) {
     if (Range)
-      this->Range = toNixfRange(*Range);
+      this->Range = toNixfRange(Src, *Range);
   }
 
   void dfs(const Node *N) {
diff --git a/nixd/lib/Controller/Rename.cpp b/nixd/lib/Controller/Rename.cpp
index 973c9e7..d36475f 100644
--- a/nixd/lib/Controller/Rename.cpp
+++ b/nixd/lib/Controller/Rename.cpp
@@ -73,12 +73,13 @@ void Controller::onRename(const RenameParams &Params,
                           Callback<WorkspaceEdit> Reply) {
   using CheckTy = WorkspaceEdit;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position),
+                 RawPos = Params.position,
                  NewText = Params.newName, this]() mutable {
     const auto File = URI.file();
     return Reply([&]() -> llvm::Expected<WorkspaceEdit> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto &Desc = *CheckReturn(
           AST->descend({Pos, Pos}),
           error("cannot find corresponding node on given position"));
@@ -100,11 +101,12 @@ void Controller::onPrepareRename(
     Callback<std::optional<lspserver::Range>> Reply) {
   using CheckTy = std::optional<lspserver::Range>;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     const auto File = URI.file();
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
 
       const auto &Desc = *CheckDefault(AST->descend({Pos, Pos}));
 
-- 
2.43.0


From b6ca4bedbd1fe7696425a465903a8368e0bb29a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 50/86] fix: fail calls if the connection is closed before they
 are replied

---
 nixd/lspserver/include/lspserver/LSPServer.h | 18 +++++++++---
 nixd/lspserver/src/LSPServer.cpp             | 29 ++++++++++++++++----
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/nixd/lspserver/include/lspserver/LSPServer.h b/nixd/lspserver/include/lspserver/LSPServer.h
index 14a946a..1c1fe41 100644
--- a/nixd/lspserver/include/lspserver/LSPServer.h
+++ b/nixd/lspserver/include/lspserver/LSPServer.h
@@ -9,6 +9,7 @@
 #include <llvm/Support/JSON.h>
 
 #include <memory>
+#include <optional>
 
 namespace lspserver {
 
@@ -41,14 +42,23 @@ private:
 
   int TopID = 1;
 
+  /// The inbound port is closed, there will be no more replies.
+  bool InboundClosed = false; // GUARDED_BY(PendingCallsLock)
+
   /// Allocate an "ID" (as returned value) for this callback.
-  int bindReply(Callback<llvm::json::Value>);
+  /// \returns nullopt if there cannot be a reply. The callback got an error.
+  std::optional<int> bindReply(Callback<llvm::json::Value>);
+
+  /// Give an error to all pending calls, and to those that come later.
+  void failPendingCalls();
 
   void callMethod(llvm::StringRef Method, llvm::json::Value Params,
                   Callback<llvm::json::Value> CB, OutboundPort *O) {
-    llvm::json::Value ID(bindReply(std::move(CB)));
-    log("--> call {0}({1})", Method, ID.getAsInteger());
-    O->call(Method, Params, ID);
+    std::optional<int> ID = bindReply(std::move(CB));
+    if (!ID)
+      return;
+    log("--> call {0}({1})", Method, *ID);
+    O->call(Method, Params, *ID);
   }
 
 protected:
diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index b130a1f..2a9feda 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -12,7 +12,10 @@
 
 namespace lspserver {
 
-void LSPServer::run() { In->loop(*this); }
+void LSPServer::run() {
+  In->loop(*this);
+  failPendingCalls();
+}
 
 bool LSPServer::onNotify(llvm::StringRef Method, llvm::json::Value Params) {
   log("<-- {0}", Method);
@@ -81,13 +84,27 @@ bool LSPServer::onReply(llvm::json::Value ID,
   return true;
 }
 
-int LSPServer::bindReply(Callback<llvm::json::Value> CB) {
+void LSPServer::failPendingCalls() {
+  std::map<int, Callback<llvm::json::Value>> Calls;
+  {
+    std::lock_guard<std::mutex> _(PendingCallsLock);
+    InboundClosed = true;
+    std::swap(Calls, PendingCalls);
+  }
+  for (auto &[ID, CB] : Calls)
+    CB(error("connection closed while waiting for the reply of call ({0})",
+             ID));
+}
+
+std::optional<int> LSPServer::bindReply(Callback<llvm::json::Value> CB) {
   std::optional<std::pair<int, Callback<llvm::json::Value>>> Oldest;
-  int Ret;
+  std::optional<int> Ret;
   {
     std::lock_guard<std::mutex> _(PendingCallsLock);
-    Ret = TopID++;
-    PendingCalls[Ret] = std::move(CB);
+    if (!InboundClosed) {
+      Ret = TopID++;
+      PendingCalls[*Ret] = std::move(CB);
+    }
 
     // Check the limit
     if (PendingCalls.size() > MaxPendingCalls) {
@@ -97,6 +114,8 @@ int LSPServer::bindReply(Callback<llvm::json::Value> CB) {
     }
   }
   // Invoke the callback outside of the critical zone, it may send other calls.
+  if (!Ret)
+    CB(error("connection is closed"));
   if (Oldest) {
     elog("more than {0} outstanding LSP calls, forgetting about {1}",
          MaxPendingCalls, Oldest->first);
-- 
2.43.0


From 459cc52e9b89e2f9162e2c91f44b47743ce80fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 51/86] fix: find variables at the first character of names
 next to other tokens

---
 libnixf/include/nixf/Basic/Nodes/Basic.h | 25 ++++++++++++++++++++----
 nixd/lib/Controller/Definition.cpp       |  7 ++++---
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/libnixf/include/nixf/Basic/Nodes/Basic.h b/libnixf/include/nixf/Basic/Nodes/Basic.h
index 23988d4..3f7b274 100644
--- a/libnixf/include/nixf/Basic/Nodes/Basic.h
+++ b/libnixf/include/nixf/Basic/Nodes/Basic.h
@@ -46,18 +46,35 @@ public:
   virtual ~Node() = default;
 
   /// \brief Descendant node that contains the given range.
+  ///
+  /// A position between adjacent tokens belongs to both of them. Names are
+  /// preferred then, e.g. the position before "x" in "a=x" is not about "=".
   [[nodiscard]] const Node *descend(PositionRange Range) const {
     if (!positionRange().contains(Range)) {
       return nullptr;
     }
+    const Node *Found = nullptr;
     for (const auto &Child : children()) {
       if (!Child)
         continue;
-      if (Child->positionRange().contains(Range)) {
-        return Child->descend(Range);
-      }
+      const Node *Desc = Child->descend(Range);
+      if (Desc && (!Found || (Desc->isName() && !Found->isName())))
+        Found = Desc;
+    }
+    return Found ? Found : this;
+  }
+
+  /// \returns true if the node is a name, or might be followed by one.
+  [[nodiscard]] bool isName() const {
+    switch (Kind) {
+    case NK_Identifier:
+    case NK_InterpolableParts:
+    case NK_ExprString:
+    case NK_Dot:
+      return true;
+    default:
+      return false;
     }
-    return this;
   }
 
   [[nodiscard]] std::string_view src(std::string_view Src) const {
diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index 62223ae..492d8cd 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -49,9 +49,10 @@ const Definition *findSelfDefinition(const Node &N,
     return Def;
 
   // If N is inside an attrset, it maybe an "AttrName", let's look for it.
-  const Node *Parent = PMA.query(N);
-  if (Parent && Parent->kind() == Node::NK_AttrName)
-    return VLA.toDef(*Parent);
+  // It is not necessarily the direct parent, as names may be quoted.
+  const Node *Name = PMA.upTo(N, Node::NK_AttrName);
+  if (Name && static_cast<const AttrName *>(Name)->isStatic())
+    return VLA.toDef(*Name);
 
   return nullptr;
 }
-- 
2.43.0


From 46cdd7f5e52119a667849ee02dd5ce5ff6799764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 52/86] fix: do not abort on attribute sets within names or
 inherit, e.g. { inherit ({ a = 1; }) a; }

---
 nixd/lib/Controller/AST.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/AST.cpp b/nixd/lib/Controller/AST.cpp
index baf0937..246ad48 100644
--- a/nixd/lib/Controller/AST.cpp
+++ b/nixd/lib/Controller/AST.cpp
@@ -81,8 +81,9 @@ void getValueAttrPath(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
       return;
     }
   }
-  assert(false && "must have corresbonding value");
-  __builtin_unreachable();
+  // "N" is not a value, but within a dynamic name, or inherited from.
+  // It is not nested in these attrs then.
+  Path.clear();
 }
 
 void getNestedAttrPath(const nixf::AttrName &N,
-- 
2.43.0


From bd9d34cd5cc3324269e347f22932ee6f904e0bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 53/86] fix: keep the meaning of the program when renaming
 names in inherit, quoted names, and nested attributes

---
 nixd/lib/Controller/Rename.cpp | 254 ++++++++++++++++++++++++++++++---
 1 file changed, 234 insertions(+), 20 deletions(-)

diff --git a/nixd/lib/Controller/Rename.cpp b/nixd/lib/Controller/Rename.cpp
index d36475f..b52d5b2 100644
--- a/nixd/lib/Controller/Rename.cpp
+++ b/nixd/lib/Controller/Rename.cpp
@@ -4,6 +4,7 @@
 /// https://microsoft.github.io/language-server-protocol/specifications/lsp/3.17/specification/#textDocument_rename
 
 #include "CheckReturn.h"
+#include "CodeActions/Utils.h"
 #include "Convert.h"
 #include "Definition.h"
 
@@ -12,6 +13,9 @@
 
 #include <boost/asio/post.hpp>
 
+#include <llvm/ADT/STLExtras.h>
+#include <llvm/ADT/StringExtras.h>
+
 #include <exception>
 
 using namespace lspserver;
@@ -35,11 +39,233 @@ struct RenameBuiltinException : RenameException {
   }
 };
 
-WorkspaceEdit rename(const nixf::Node &Desc, const std::string &NewText,
-                     const ParentMapAnalysis &PMA,
+struct RenameInvalidNameException : RenameException {
+  [[nodiscard]] const char *what() const noexcept override {
+    return "the new name is not a valid identifier";
+  }
+};
+
+struct RenameQuotedException : RenameException {
+  [[nodiscard]] const char *what() const noexcept override {
+    return "cannot rename a variable whose name has to be quoted";
+  }
+};
+
+/// \brief Replace some range of the source.
+struct SrcEdit {
+  LexerCursor Begin;
+  LexerCursor End;
+  std::string NewText;
+};
+
+bool isIdentifierChar(char C) {
+  return llvm::isAlnum(C) || C == '_' || C == '-' || C == '\'';
+}
+
+/// \brief The source of \p N, with \p Edits applied.
+std::string editedSrc(const nixf::Node &N, std::vector<SrcEdit> Edits,
+                      llvm::StringRef Src) {
+  std::string Text(N.src(Src));
+  const std::size_t Base = N.lCur().offset();
+  llvm::sort(Edits, [](const SrcEdit &A, const SrcEdit &B) {
+    return A.Begin.offset() > B.Begin.offset();
+  });
+  for (const SrcEdit &E : Edits) {
+    if (E.Begin.offset() >= Base && E.End.offset() <= N.rCur().offset())
+      Text.replace(E.Begin.offset() - Base, E.End.offset() - E.Begin.offset(),
+                   E.NewText);
+  }
+  return Text;
+}
+
+/// \brief Renames a definition and its uses.
+class Renamer {
+  const nixf::Node &Root;
+  const ParentMapAnalysis &PMA;
+  const std::string &NewName;
+  llvm::StringRef Src;
+
+  std::vector<SrcEdit> Edits;
+
+  [[nodiscard]] const AttrName *inheritedName(const nixf::Node &N) const {
+    const nixf::Node *Name = PMA.upTo(N, Node::NK_AttrName);
+    if (!Name || !PMA.query(*Name) ||
+        PMA.query(*Name)->kind() != Node::NK_Inherit)
+      return nullptr;
+    return static_cast<const AttrName *>(Name);
+  }
+
+  void replace(const nixf::Node &N, std::string NewText) {
+    // The new text must not stick to what is around, e.g. let"x"=1;
+    const std::size_t Begin = N.lCur().offset();
+    const std::size_t End = N.rCur().offset();
+    if (Begin > 0 && isIdentifierChar(Src[Begin - 1]) &&
+        isIdentifierChar(NewText.front()))
+      NewText.insert(NewText.begin(), ' ');
+    if (End < Src.size() && isIdentifierChar(Src[End]) &&
+        isIdentifierChar(NewText.back()))
+      NewText.push_back(' ');
+    Edits.emplace_back(SrcEdit{N.lCur(), N.rCur(), std::move(NewText)});
+  }
+
+  /// \brief Take \p Name out of inherit, and bind \p Key to \p Value.
+  void replaceInherited(const AttrName &Name, const std::string &Key,
+                        const std::string &Value) {
+    const auto &Inh = static_cast<const Inherit &>(*PMA.query(Name));
+    const std::string From =
+        Inh.expr() ? "(" + editedSrc(*Inh.expr(), Edits, Src) + ")" : "";
+    if (Inh.names().size() > 1) {
+      //  inherit a x b;
+      //            ^
+      //  inherit a ; x = renamed; inherit b;
+      std::string Again = "; inherit";
+      if (Inh.expr())
+        Again += " " + From;
+      replace(Name, "; " + Key + " = " + (Inh.expr() ? From + "." : "") +
+                        Value + Again);
+      return;
+    }
+    //  inherit x;
+    //  ^~~~~~~
+    //  x = renamed;
+    const LexerCursor Begin = Inh.lCur();
+    constexpr std::size_t Length = sizeof("inherit") - 1;
+    Edits.emplace_back(
+        SrcEdit{Begin,
+                LexerCursor::unsafeCreate(Begin.line(), Begin.column() + Length,
+                                          Begin.offset() + Length),
+                Key + " ="});
+    if (Inh.expr())
+      Edits.emplace_back(SrcEdit{Name.lCur(), Name.rCur(), "." + Value});
+    else
+      replace(Name, Value);
+  }
+
+  /// \brief The path of \p Name, and the outermost attrs it is relative to.
+  [[nodiscard]] const ExprAttrs *
+  attrPathOf(const AttrName &Name, std::vector<std::string> &Path) const {
+    const nixf::Node *Parent = PMA.query(Name);
+    if (!Parent || Parent->kind() != Node::NK_AttrPath)
+      return nullptr;
+    for (const auto &N : static_cast<const AttrPath &>(*Parent).names()) {
+      if (!N || !N->isStatic())
+        return nullptr;
+      Path.emplace_back(N->staticName());
+      if (N.get() == &Name)
+        break;
+    }
+    const auto *Attrs =
+        static_cast<const ExprAttrs *>(PMA.upTo(*Parent, Node::NK_ExprAttrs));
+    while (Attrs) {
+      // Values of bindings may be merged with others.
+      //  { a = rec { x.y = 1; }; a.x.z = 2; }
+      const nixf::Node *Up = PMA.query(*Attrs);
+      if (!Up || Up->kind() != Node::NK_Binding)
+        break;
+      std::vector<std::string> Prefix;
+      for (const auto &N : static_cast<const Binding &>(*Up).path().names()) {
+        if (!N || !N->isStatic())
+          return Attrs;
+        Prefix.emplace_back(N->staticName());
+      }
+      Path.insert(Path.begin(), Prefix.begin(), Prefix.end());
+      Attrs = static_cast<const ExprAttrs *>(PMA.upTo(*Up, Node::NK_ExprAttrs));
+    }
+    return Attrs;
+  }
+
+  /// \brief Collect all names in \p Attrs that denote \p Path.
+  void collectNames(const ExprAttrs &Attrs, llvm::ArrayRef<std::string> Path,
+                    std::vector<const AttrName *> &Names) const {
+    if (!Attrs.binds())
+      return;
+    for (const auto &B : Attrs.binds()->bindings()) {
+      if (!B || B->kind() != Node::NK_Binding)
+        continue;
+      const auto &Bind = static_cast<const Binding &>(*B);
+      llvm::ArrayRef<std::string> Rest = Path;
+      for (const auto &N : Bind.path().names()) {
+        if (!N || !N->isStatic() || N->staticName() != Rest.front())
+          break;
+        Rest = Rest.drop_front();
+        if (Rest.empty()) {
+          Names.emplace_back(N.get());
+          break;
+        }
+        if (N == Bind.path().names().back() && Bind.value() &&
+            Bind.value()->kind() == Node::NK_ExprAttrs)
+          collectNames(static_cast<const ExprAttrs &>(*Bind.value()), Rest,
+                       Names);
+      }
+    }
+  }
+
+  void renameUse(const ExprVar &Use) {
+    // Variables desugared from inherit are not on the syntax tree.
+    const nixf::Node *N = Root.descend(Use.positionRange());
+    if (const AttrName *Name = N ? inheritedName(*N) : nullptr)
+      replaceInherited(*Name, std::string(Name->src(Src)), NewName);
+    else
+      replace(Use, NewName);
+  }
+
+  void renameDefinition(const nixf::Node &Syntax) {
+    if (Syntax.kind() != Node::NK_AttrName) {
+      replace(Syntax, NewName);
+      return;
+    }
+    const auto &Name = static_cast<const AttrName &>(Syntax);
+    if (inheritedName(Name)) {
+      const auto &Inh = static_cast<const Inherit &>(*PMA.query(Name));
+      std::string Value(Name.src(Src));
+      if (!Inh.expr() && Name.kind() == AttrName::ANK_String) {
+        // inherit "x";
+        Value = Name.staticName();
+        if (!isValidNixIdentifier(Value))
+          throw RenameQuotedException();
+      }
+      replaceInherited(Name, NewName, Value);
+      return;
+    }
+    // The same attribute may be written many times.
+    //  { a.x = 1; a.y = 2; }
+    std::vector<std::string> Path;
+    std::vector<const AttrName *> Names;
+    if (const ExprAttrs *Attrs = attrPathOf(Name, Path))
+      collectNames(*Attrs, Path, Names);
+    if (std::find(Names.begin(), Names.end(), &Name) == Names.end())
+      Names = {&Name};
+    for (const AttrName *N : Names)
+      replace(*N, NewName);
+  }
+
+public:
+  Renamer(const nixf::Node &Root, const ParentMapAnalysis &PMA,
+          const std::string &NewName, llvm::StringRef Src)
+      : Root(Root), PMA(PMA), NewName(NewName), Src(Src) {}
+
+  std::vector<lspserver::TextEdit> run(const Definition &Def) {
+    for (const auto *Use : Def.uses())
+      renameUse(*Use);
+    renameDefinition(*Def.syntax());
+    std::vector<lspserver::TextEdit> Result;
+    Result.reserve(Edits.size());
+    for (SrcEdit &E : Edits)
+      Result.emplace_back(lspserver::TextEdit{
+          .range = toLSPRange(Src, LexerCursorRange(E.Begin, E.End)),
+          .newText = std::move(E.NewText),
+      });
+    return Result;
+  }
+};
+
+WorkspaceEdit rename(const nixf::Node &Root, const nixf::Node &Desc,
+                     const std::string &NewText, const ParentMapAnalysis &PMA,
                      const VariableLookupAnalysis &VLA, const URIForFile &URI,
                      llvm::StringRef Src) {
-  using lspserver::TextEdit;
+  if (!isValidNixIdentifier(NewText))
+    throw RenameInvalidNameException();
+
   // Find "definition"
   auto Def = findDefinition(Desc, PMA, VLA);
 
@@ -49,22 +275,9 @@ WorkspaceEdit rename(const nixf::Node &Desc, const std::string &NewText,
   if (Def.isBuiltin())
     throw RenameBuiltinException();
 
-  std::vector<TextEdit> Edits;
-
-  for (const auto *Use : Def.uses()) {
-    Edits.emplace_back(TextEdit{
-        .range = toLSPRange(Src, Use->range()),
-        .newText = NewText,
-    });
-  }
-
-  Edits.emplace_back(TextEdit{
-      .range = toLSPRange(Src, Def.syntax()->range()),
-      .newText = NewText,
-  });
   WorkspaceEdit WE;
-  WE.changes = std::map<std::string, std::vector<TextEdit>>{
-      {URI.uri(), std::move(Edits)}};
+  WE.changes = std::map<std::string, std::vector<lspserver::TextEdit>>{
+      {URI.uri(), Renamer(Root, PMA, NewText, Src).run(Def)}};
   return WE;
 }
 } // namespace
@@ -87,7 +300,7 @@ void Controller::onRename(const RenameParams &Params,
       const auto &PM = *TU->parentMap();
       const auto &VLA = *TU->variableLookup();
       try {
-        return rename(Desc, NewText, PM, VLA, URI, TU->src());
+        return rename(*AST, Desc, NewText, PM, VLA, URI, TU->src());
       } catch (std::exception &E) {
         return error(E.what());
       }
@@ -113,7 +326,8 @@ void Controller::onPrepareRename(
       const auto &PM = *TU->parentMap();
       const auto &VLA = *TU->variableLookup();
       try {
-        WorkspaceEdit WE = rename(Desc, "", PM, VLA, URI, TU->src());
+        // Check if it could be renamed, to any name.
+        rename(*AST, Desc, "renamed", PM, VLA, URI, TU->src());
         return toLSPRange(TU->src(), Desc.range());
       } catch (std::exception &E) {
         return error(E.what());
-- 
2.43.0


From c1d9e3393a6879d537ab4127dfd0941bec50038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 54/86] fix: do not use dead workers

---
 nixd/include/nixd/Controller/Controller.h |  8 +++-----
 nixd/include/nixd/Eval/AttrSetClient.h    |  3 +++
 nixd/lib/Controller/Completion.cpp        | 23 ++++++++++++++++-------
 nixd/lib/Controller/Configuration.cpp     |  5 ++++-
 nixd/lib/Controller/Definition.cpp        | 13 ++++++++-----
 nixd/lib/Controller/InlayHints.cpp        |  3 ++-
 nixd/lib/Eval/AttrSetClient.cpp           |  9 ++++++---
 7 files changed, 42 insertions(+), 22 deletions(-)

diff --git a/nixd/include/nixd/Controller/Controller.h b/nixd/include/nixd/Controller/Controller.h
index 61fabb8..8ed71ef 100644
--- a/nixd/include/nixd/Controller/Controller.h
+++ b/nixd/include/nixd/Controller/Controller.h
@@ -33,13 +33,11 @@ private:
   //      "home-manager" -> home-manager worker
   OptionMapTy Options; // GUARDED_BY(OptionsLock)
 
-  AttrSetClientProc &nixpkgsEval() {
-    assert(NixpkgsEval);
-    return *NixpkgsEval;
+  /// \returns nullptr if the nixpkgs worker is not there, or dead.
+  AttrSetClient *nixpkgsClient() {
+    return NixpkgsEval ? NixpkgsEval->client() : nullptr;
   }
 
-  AttrSetClient *nixpkgsClient() { return nixpkgsEval().client(); }
-
   void evalExprWithProgress(AttrSetClient &Client, const EvalExprParams &Params,
                             std::string_view Description);
 
diff --git a/nixd/include/nixd/Eval/AttrSetClient.h b/nixd/include/nixd/Eval/AttrSetClient.h
index 11931d9..cd4a649 100644
--- a/nixd/include/nixd/Eval/AttrSetClient.h
+++ b/nixd/include/nixd/Eval/AttrSetClient.h
@@ -5,6 +5,7 @@
 
 #include <lspserver/LSPServer.h>
 
+#include <atomic>
 #include <thread>
 
 namespace nixd {
@@ -75,6 +76,8 @@ public:
 class AttrSetClientProc {
   StreamProc Proc;
   AttrSetClient Client;
+  /// The worker closed its connection, it won't reply.
+  std::atomic<bool> Closed = false;
   std::thread Input;
 
 public:
diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index f0b7898..59a0bfd 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -391,12 +391,15 @@ AttrPathCompleteParams mkParams(nixd::Selector Sel, bool IsComplete) {
 void completeVarName(const lspserver::Range EditRange,
                      const VariableLookupAnalysis &VLA,
                      const ParentMapAnalysis &PM, const nixf::ExprVar &N,
-                     AttrSetClient &Client, std::vector<CompletionItem> &List) {
+                     AttrSetClient *Client, std::vector<CompletionItem> &List) {
 #define DBGPREFIX "completion/var"
 
   VLACompletionProvider VLAP(VLA);
   VLAP.complete(N, List, PM);
 
+  if (!Client)
+    return;
+
   // Try to complete the name by known idioms.
   try {
     Selector Sel = idioms::mkVarSelector(N, VLA, PM);
@@ -406,7 +409,7 @@ void completeVarName(const lspserver::Range EditRange,
       return;
 
     // Invoke nixpkgs provider to get the completion list.
-    NixpkgsCompletionProvider NCP(Client);
+    NixpkgsCompletionProvider NCP(*Client);
     // Variable names are always incomplete.
     NCP.completePackages(EditRange, mkParams(Sel, /*IsComplete=*/false), List);
   } catch (ExceedSizeError &) {
@@ -494,7 +497,7 @@ void Controller::onCompletion(const CompletionParams &Params,
           case Node::NK_ExprVar: {
             completeVarName(EditRange, VLA, PM,
                             static_cast<const nixf::ExprVar &>(UpExpr),
-                            *nixpkgsClient(), List.items);
+                            nixpkgsClient(), List.items);
             return List;
           }
           // A "select" expression. e.g.
@@ -503,8 +506,9 @@ void Controller::onCompletion(const CompletionParams &Params,
           // foo.a.bar|
           case Node::NK_ExprSelect: {
             const auto &Select = static_cast<const nixf::ExprSelect &>(UpExpr);
-            completeSelect(EditRange, Select, *nixpkgsClient(), VLA, PM,
-                           N.kind() == Node::NK_Dot, List.items);
+            if (AttrSetClient *Client = nixpkgsClient())
+              completeSelect(EditRange, Select, *Client, VLA, PM,
+                             N.kind() == Node::NK_Dot, List.items);
             return List;
           }
           case Node::NK_ExprAttrs: {
@@ -544,8 +548,13 @@ void Controller::onCompletionItemResolve(const CompletionItem &Params,
     llvm::json::Path::Root Root;
     fromJSON(*EV, Req, Root);
 
-    // FIXME: handle null nixpkgsClient()
-    NixpkgsCompletionProvider NCP(*nixpkgsClient());
+    AttrSetClient *Client = nixpkgsClient();
+    if (!Client) {
+      // The worker is dead, there is nothing to add.
+      Reply(Params);
+      return;
+    }
+    NixpkgsCompletionProvider NCP(*Client);
     CompletionItem Resp = Params;
     NCP.resolvePackage(Req.Scope, Params.label, Resp);
 
diff --git a/nixd/lib/Controller/Configuration.cpp b/nixd/lib/Controller/Configuration.cpp
index 3bb28e8..1c8d8b6 100644
--- a/nixd/lib/Controller/Configuration.cpp
+++ b/nixd/lib/Controller/Configuration.cpp
@@ -74,7 +74,10 @@ void Controller::updateConfig(Configuration NewConfig) {
         startOption(Name, Client);
       }
       assert(Client);
-      evalExprWithProgress(*Client->client(), Opt.expr, Name);
+      if (AttrSetClient *C = Client->client())
+        evalExprWithProgress(*C, Opt.expr, Name);
+      else
+        elog("options worker {0} is dead", Name);
     }
   }
 
diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index 492d8cd..e0898a1 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -320,15 +320,17 @@ std::vector<T> mergeVec(std::vector<T> A, const std::vector<T> &B) {
 
 llvm::Expected<Locations>
 defineVar(const ExprVar &Var, const VariableLookupAnalysis &VLA,
-          const ParentMapAnalysis &PM, AttrSetClient &NixpkgsClient,
+          const ParentMapAnalysis &PM, AttrSetClient *NixpkgsClient,
           const URIForFile &URI, llvm::StringRef Src) {
   try {
     Locations StaticLocs = defineVarStatic(Var, VLA, URI, Src);
 
     // Nixpkgs locations.
+    if (!NixpkgsClient)
+      return StaticLocs;
     try {
       Selector Sel = mkVarSelector(Var, VLA, PM);
-      Locations NixpkgsLocs = defineNixpkgsSelector(Sel, NixpkgsClient);
+      Locations NixpkgsLocs = defineNixpkgsSelector(Sel, *NixpkgsClient);
       return mergeVec(std::move(StaticLocs), NixpkgsLocs);
     } catch (std::exception &E) {
       elog("definition/idiom/selector: {0}", E.what());
@@ -394,16 +396,17 @@ void Controller::onDefinition(const TextDocumentPositionParams &Params,
 
       // Special case for inherited names.
       if (const ExprVar *Var = findInheritVar(N, PM, VLA))
-        return defineVar(*Var, VLA, PM, *nixpkgsClient(), URI, TU->src());
+        return defineVar(*Var, VLA, PM, nixpkgsClient(), URI, TU->src());
 
       switch (UpExpr.kind()) {
       case Node::NK_ExprVar: {
         const auto &Var = static_cast<const ExprVar &>(UpExpr);
-        return defineVar(Var, VLA, PM, *nixpkgsClient(), URI, TU->src());
+        return defineVar(Var, VLA, PM, nixpkgsClient(), URI, TU->src());
       }
       case Node::NK_ExprSelect: {
         const auto &Sel = static_cast<const ExprSelect &>(UpExpr);
-        return defineSelect(Sel, VLA, PM, *nixpkgsClient());
+        AttrSetClient *Client = CheckDefault(nixpkgsClient());
+        return defineSelect(Sel, VLA, PM, *Client);
       }
       case Node::NK_ExprAttrs:
         return defineAttrPath(N, PM, OptionsLock, Options);
diff --git a/nixd/lib/Controller/InlayHints.cpp b/nixd/lib/Controller/InlayHints.cpp
index 4e505fd..ef782a4 100644
--- a/nixd/lib/Controller/InlayHints.cpp
+++ b/nixd/lib/Controller/InlayHints.cpp
@@ -127,9 +127,10 @@ void Controller::onInlayHint(const InlayHintsParams &Params,
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      AttrSetClient *Client = CheckDefault(nixpkgsClient());
       // Perform inlay hints computation on the range.
       std::vector<InlayHint> Response;
-      NixpkgsInlayHintsProvider NP(*nixpkgsClient(), *TU->variableLookup(),
+      NixpkgsInlayHintsProvider NP(*Client, *TU->variableLookup(),
                                    *TU->parentMap(), Range, Response,
                                    TU->src());
       NP.dfs(AST.get());
diff --git a/nixd/lib/Eval/AttrSetClient.cpp b/nixd/lib/Eval/AttrSetClient.cpp
index 9c19c4c..cc877e9 100644
--- a/nixd/lib/Eval/AttrSetClient.cpp
+++ b/nixd/lib/Eval/AttrSetClient.cpp
@@ -30,11 +30,14 @@ const char *AttrSetClient::getExe() {
 }
 
 AttrSetClientProc::AttrSetClientProc(const std::function<int()> &Action)
-    : Proc(Action), Client(Proc.mkIn(), Proc.mkOut()),
-      Input([this]() { Client.run(); }) {}
+    : Proc(Action), Client(Proc.mkIn(), Proc.mkOut()), Input([this]() {
+        Client.run();
+        Closed = true;
+      }) {}
 
 AttrSetClient *AttrSetClientProc::client() {
-  if (!kill(Proc.proc().PID, 0))
+  // Dead workers are still there (as zombies) for kill(2).
+  if (!Closed && !kill(Proc.proc().PID, 0))
     return &Client;
   return nullptr;
 }
-- 
2.43.0


From 2d6686afce4dedd9dcc830649d8067e12269c8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 55/86] fix: do not die of SIGPIPE if a worker, a formatter, or
 the client is gone

---
 nixd/include/nixd/Support/StreamProc.h |  6 ++++++
 nixd/lib/Support/ForkPiped.cpp         |  3 +++
 nixd/tools/nixd.cpp                    | 11 +++++++++++
 3 files changed, 20 insertions(+)

diff --git a/nixd/include/nixd/Support/StreamProc.h b/nixd/include/nixd/Support/StreamProc.h
index bfba46b..42e4b5f 100644
--- a/nixd/include/nixd/Support/StreamProc.h
+++ b/nixd/include/nixd/Support/StreamProc.h
@@ -19,6 +19,12 @@ public:
   /// value.
   StreamProc(const std::function<int()> &Action);
 
+  ~StreamProc() {
+    // The process may be dead, then writing to it was an error.
+    if (Stream)
+      Stream->clear_error();
+  }
+
   [[nodiscard]] llvm::raw_fd_ostream &stream() const {
     assert(Stream);
     return *Stream;
diff --git a/nixd/lib/Support/ForkPiped.cpp b/nixd/lib/Support/ForkPiped.cpp
index 60b704e..1ee8992 100644
--- a/nixd/lib/Support/ForkPiped.cpp
+++ b/nixd/lib/Support/ForkPiped.cpp
@@ -1,6 +1,7 @@
 #include "nixd/Support/ForkPiped.h"
 
 #include <cerrno>
+#include <csignal>
 
 #include <system_error>
 #include <unistd.h>
@@ -27,6 +28,8 @@ int nixd::forkPiped(int &In, int &Out, int &Err) {
     close(PipeIn[READ]);
     close(PipeOut[WRITE]);
     close(PipeErr[WRITE]);
+    // Ignored signals are inherited by programs executed.
+    std::signal(SIGPIPE, SIG_DFL);
     // Child process.
     return 0;
   }
diff --git a/nixd/tools/nixd.cpp b/nixd/tools/nixd.cpp
index 9417cf4..9feabb3 100644
--- a/nixd/tools/nixd.cpp
+++ b/nixd/tools/nixd.cpp
@@ -9,6 +9,8 @@
 #include <llvm/ADT/ArrayRef.h>
 #include <llvm/Support/CommandLine.h>
 
+#include <csignal>
+
 using namespace lspserver;
 using namespace nixd;
 
@@ -70,6 +72,9 @@ int main(int argc, char *argv[]) {
   StreamLogger Logger(llvm::errs(), LogLevel);
   LoggingSession Session(Logger);
 
+  // Writing to dead workers, or formatters, must not kill us.
+  std::signal(SIGPIPE, SIG_IGN);
+
   auto In = std::make_unique<lspserver::InboundPort>(STDIN_FILENO, InputStyle);
 
   auto Out = std::make_unique<lspserver::OutboundPort>(PrettyPrint);
@@ -79,5 +84,11 @@ int main(int argc, char *argv[]) {
 
   Controller->run();
 
+  // Wait for what is still under way.
+  Controller.reset();
+
+  // The client may be gone.
+  llvm::outs().clear_error();
+
   return 0;
 }
-- 
2.43.0


From 744229e5e117808dbb68ee9ef48fc4509702ff2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 56/86] fix: end even if tasks wait for workers that never
 reply, and do not hold a lock while waiting

---
 nixd/include/nixd/Controller/Controller.h | 33 +++++++-
 nixd/include/nixd/Eval/AttrSetClient.h    | 11 ++-
 nixd/lib/Controller/Completion.cpp        | 22 ++----
 nixd/lib/Controller/Configuration.cpp     |  2 +
 nixd/lib/Controller/Definition.cpp        | 15 ++--
 nixd/lib/Controller/Hover.cpp             | 95 ++++++++++++-----------
 6 files changed, 105 insertions(+), 73 deletions(-)

diff --git a/nixd/include/nixd/Controller/Controller.h b/nixd/include/nixd/Controller/Controller.h
index 8ed71ef..99d68a9 100644
--- a/nixd/include/nixd/Controller/Controller.h
+++ b/nixd/include/nixd/Controller/Controller.h
@@ -17,10 +17,8 @@
 namespace nixd {
 
 class Controller : public lspserver::LSPServer {
-public:
   using OptionMapTy = std::map<std::string, std::unique_ptr<AttrSetClientProc>>;
 
-private:
   std::unique_ptr<OwnedEvalClient> Eval;
 
   // Use this worker for evaluating nixpkgs.
@@ -33,6 +31,35 @@ private:
   //      "home-manager" -> home-manager worker
   OptionMapTy Options; // GUARDED_BY(OptionsLock)
 
+  // No more workers shall be started, the server is about to end.
+  bool WorkersStopped = false; // GUARDED_BY(OptionsLock)
+
+  /// \brief Workers of options that are alive, and their names.
+  ///
+  /// They live as long as the server, so that nobody has to hold the lock while
+  /// waiting for their replies.
+  std::map<std::string, AttrSetClient *> optionClients() {
+    std::lock_guard _(OptionsLock);
+    std::map<std::string, AttrSetClient *> Clients;
+    for (const auto &[Name, Proc] : Options) {
+      if (AttrSetClient *Client = Proc->client())
+        Clients.emplace(Name, Client);
+      else
+        lspserver::elog("skipped client {0} as it is dead", Name);
+    }
+    return Clients;
+  }
+
+  /// \brief Ask workers to exit, calls waiting for them will fail.
+  void stopWorkers() {
+    std::lock_guard _(OptionsLock);
+    WorkersStopped = true;
+    if (NixpkgsEval)
+      NixpkgsEval->stop();
+    for (const auto &[_, Proc] : Options)
+      Proc->stop();
+  }
+
   /// \returns nullptr if the nixpkgs worker is not there, or dead.
   AttrSetClient *nixpkgsClient() {
     return NixpkgsEval ? NixpkgsEval->client() : nullptr;
@@ -253,6 +280,8 @@ public:
              std::unique_ptr<lspserver::OutboundPort> Out);
 
   ~Controller() override {
+    // Tasks may wait for workers that never reply.
+    stopWorkers();
     Pool.join();
     // Stop the workers here. Their replies may still arrive until then, and use
     // the members declared after them.
diff --git a/nixd/include/nixd/Eval/AttrSetClient.h b/nixd/include/nixd/Eval/AttrSetClient.h
index cd4a649..078555d 100644
--- a/nixd/include/nixd/Eval/AttrSetClient.h
+++ b/nixd/include/nixd/Eval/AttrSetClient.h
@@ -78,15 +78,24 @@ class AttrSetClientProc {
   AttrSetClient Client;
   /// The worker closed its connection, it won't reply.
   std::atomic<bool> Closed = false;
+  std::atomic<bool> Stopped = false;
   std::thread Input;
 
 public:
   /// \brief Check if the process is still alive
   /// \returns nullptr if it has been dead.
   AttrSetClient *client();
-  ~AttrSetClientProc() {
+
+  /// \brief Ask the process to exit, and do not listen to it any more.
+  void stop() {
+    if (Stopped.exchange(true))
+      return;
     Client.exit();
     Client.closeInbound();
+  }
+
+  ~AttrSetClientProc() {
+    stop();
     Input.join();
   }
 
diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index 59a0bfd..8313b7f 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -340,22 +340,19 @@ public:
 void completeAttrName(const lspserver::Range EditRange,
                       const std::vector<std::string> &Scope,
                       const std::string &Prefix,
-                      Controller::OptionMapTy &Options, bool CompletionSnippets,
+                      const std::map<std::string, AttrSetClient *> &Options,
+                      bool CompletionSnippets,
                       std::vector<CompletionItem> &List) {
-  for (const auto &[Name, Provider] : Options) {
-    AttrSetClient *Client = Options.at(Name)->client();
-    if (!Client) [[unlikely]] {
-      elog("skipped client {0} as it is dead", Name);
-      continue;
-    }
+  for (const auto &[Name, Client] : Options) {
     OptionCompletionProvider OCP(*Client, Name, CompletionSnippets);
     OCP.completeOptions(EditRange, Scope, Prefix, List);
   }
 }
 
 void completeAttrPath(const lspserver::Range EditRange, const Node &N,
-                      const ParentMapAnalysis &PM, std::mutex &OptionsLock,
-                      Controller::OptionMapTy &Options, bool Snippets,
+                      const ParentMapAnalysis &PM,
+                      const std::map<std::string, AttrSetClient *> &Options,
+                      bool Snippets,
                       std::vector<lspserver::CompletionItem> &Items) {
   std::vector<std::string> Scope;
   using PathResult = FindAttrPathResult;
@@ -364,10 +361,7 @@ void completeAttrPath(const lspserver::Range EditRange, const Node &N,
     // Construct request.
     std::string Prefix = Scope.back();
     Scope.pop_back();
-    {
-      std::lock_guard _(OptionsLock);
-      completeAttrName(EditRange, Scope, Prefix, Options, Snippets, Items);
-    }
+    completeAttrName(EditRange, Scope, Prefix, Options, Snippets, Items);
   }
 }
 
@@ -512,7 +506,7 @@ void Controller::onCompletion(const CompletionParams &Params,
             return List;
           }
           case Node::NK_ExprAttrs: {
-            completeAttrPath(EditRange, N, PM, OptionsLock, Options,
+            completeAttrPath(EditRange, N, PM, optionClients(),
                              ClientCaps.CompletionSnippets, List.items);
             return List;
           }
diff --git a/nixd/lib/Controller/Configuration.cpp b/nixd/lib/Controller/Configuration.cpp
index 1c8d8b6..aa6cdba 100644
--- a/nixd/lib/Controller/Configuration.cpp
+++ b/nixd/lib/Controller/Configuration.cpp
@@ -66,6 +66,8 @@ void Controller::updateConfig(Configuration NewConfig) {
   }
   if (!Config.options.empty()) {
     std::lock_guard _(OptionsLock);
+    if (WorkersStopped)
+      return;
     // For each option configuration, update the worker.
     for (const auto &[Name, Opt] : Config.options) {
       auto &Client = Options[Name];
diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index e0898a1..457dbdd 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -257,21 +257,18 @@ std::optional<Location> definePath(const ExprPath &Path,
 /// \brief Get the locations of some attribute path.
 ///
 /// Usually this function will return a list of option declarations via RPC
-Locations defineAttrPath(const Node &N, const ParentMapAnalysis &PM,
-                         std::mutex &OptionsLock,
-                         Controller::OptionMapTy &Options) {
+Locations
+defineAttrPath(const Node &N, const ParentMapAnalysis &PM,
+               const std::map<std::string, AttrSetClient *> &Options) {
   using PathResult = FindAttrPathResult;
   std::vector<std::string> Scope;
   auto R = findAttrPathForOptions(N, PM, Scope);
   Locations Locs;
   if (R == PathResult::OK) {
-    std::lock_guard _(OptionsLock);
     // For each option worker, try to get it's decl position.
     for (const auto &[_, Client] : Options) {
-      if (AttrSetClient *C = Client->client()) {
-        OptionsDefinitionProvider ODP(*C);
-        ODP.resolveLocations(Scope, Locs);
-      }
+      OptionsDefinitionProvider ODP(*Client);
+      ODP.resolveLocations(Scope, Locs);
     }
   }
   return Locs;
@@ -409,7 +406,7 @@ void Controller::onDefinition(const TextDocumentPositionParams &Params,
         return defineSelect(Sel, VLA, PM, *Client);
       }
       case Node::NK_ExprAttrs:
-        return defineAttrPath(N, PM, OptionsLock, Options);
+        return defineAttrPath(N, PM, optionClients());
       case Node::NK_ExprPath: {
         const auto &Path = static_cast<const ExprPath &>(UpExpr);
         if (auto Loc = definePath(Path, File))
diff --git a/nixd/lib/Controller/Hover.cpp b/nixd/lib/Controller/Hover.cpp
index 286292a..6488dc9 100644
--- a/nixd/lib/Controller/Hover.cpp
+++ b/nixd/lib/Controller/Hover.cpp
@@ -222,60 +222,61 @@ void Controller::onHover(const TextDocumentPositionParams &Params,
 
       const auto &UpExpr = *CheckDefault(PM.upExpr(N));
 
+      auto *Client = nixpkgsClient();
+
+      switch (UpExpr.kind()) {
       // Try to get hover info from nixpkgs.
-      if (auto *Client = nixpkgsClient(); Client) {
-        switch (UpExpr.kind()) {
-        case Node::NK_ExprVar: {
-          const auto &Var = static_cast<const ExprVar &>(UpExpr);
-          if (auto H = hoverVar(Var, VLA, PM, *Client, TU->src()))
-            return *H;
+      case Node::NK_ExprVar: {
+        const auto &Var = static_cast<const ExprVar &>(UpExpr);
+        if (!Client)
           break;
-        }
-        case Node::NK_ExprSelect: {
-          const auto &Sel = static_cast<const ExprSelect &>(UpExpr);
-          if (auto H = hoverSelect(Sel, VLA, PM, *Client, TU->src()))
-            return *H;
+        if (auto H = hoverVar(Var, VLA, PM, *Client, TU->src()))
+          return *H;
+        break;
+      }
+      case Node::NK_ExprSelect: {
+        const auto &Sel = static_cast<const ExprSelect &>(UpExpr);
+        if (!Client)
           break;
-        }
-        case Node::NK_ExprAttrs: {
-          // Try to get hover info from options.
-          auto Scope = std::vector<std::string>();
-          const auto R = findAttrPathForOptions(N, PM, Scope);
-          if (R == FindAttrPathResult::OK) {
-            std::lock_guard _(OptionsLock);
-            for (const auto &[_, Client] : Options) {
-              if (AttrSetClient *C = Client->client()) {
-                OptionsHoverProvider OHP(*C);
-                std::optional<OptionDescription> Desc = OHP.resolveHover(Scope);
-                std::string Docs;
-                if (Desc) {
-                  if (Desc->Type) {
-                    std::string TypeName = Desc->Type->Name.value_or("");
-                    std::string TypeDesc = Desc->Type->Description.value_or("");
-                    Docs += llvm::formatv("{0} ({1})", TypeName, TypeDesc);
-                  } else {
-                    Docs += "? (missing type)";
-                  }
-                  if (Desc->Description) {
-                    Docs += "\n\n" + Desc->Description.value_or("");
-                  }
-                  return Hover{
-                      .contents =
-                          MarkupContent{
-                              .kind = MarkupKind::Markdown,
-                              .value = std::move(Docs),
-                          },
-                      .range = toLSPRange(TU->src(), N.range()),
-                  };
-                }
+        if (auto H = hoverSelect(Sel, VLA, PM, *Client, TU->src()))
+          return *H;
+        break;
+      }
+      case Node::NK_ExprAttrs: {
+        // Try to get hover info from options.
+        auto Scope = std::vector<std::string>();
+        const auto R = findAttrPathForOptions(N, PM, Scope);
+        if (R == FindAttrPathResult::OK) {
+          for (const auto &[_, C] : optionClients()) {
+            OptionsHoverProvider OHP(*C);
+            std::optional<OptionDescription> Desc = OHP.resolveHover(Scope);
+            std::string Docs;
+            if (Desc) {
+              if (Desc->Type) {
+                std::string TypeName = Desc->Type->Name.value_or("");
+                std::string TypeDesc = Desc->Type->Description.value_or("");
+                Docs += llvm::formatv("{0} ({1})", TypeName, TypeDesc);
+              } else {
+                Docs += "? (missing type)";
               }
+              if (Desc->Description) {
+                Docs += "\n\n" + Desc->Description.value_or("");
+              }
+              return Hover{
+                  .contents =
+                      MarkupContent{
+                          .kind = MarkupKind::Markdown,
+                          .value = std::move(Docs),
+                      },
+                  .range = toLSPRange(TU->src(), N.range()),
+              };
             }
           }
-          break;
-        }
-        default:
-          break;
         }
+        break;
+      }
+      default:
+        break;
       }
 
       return std::nullopt;
-- 
2.43.0


From eac242166e25408780d4998edc34f0f17180970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 57/86] fix: do not leak pipes into other children, and return
 the one of stderr

---
 nixd/lib/Support/ForkPiped.cpp  | 11 ++++++++++-
 nixd/lib/Support/StreamProc.cpp |  4 +++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Support/ForkPiped.cpp b/nixd/lib/Support/ForkPiped.cpp
index 1ee8992..2be489f 100644
--- a/nixd/lib/Support/ForkPiped.cpp
+++ b/nixd/lib/Support/ForkPiped.cpp
@@ -3,6 +3,8 @@
 #include <cerrno>
 #include <csignal>
 
+#include <fcntl.h>
+#include <mutex>
 #include <system_error>
 #include <unistd.h>
 
@@ -12,8 +14,14 @@ int nixd::forkPiped(int &In, int &Out, int &Err) {
   int PipeIn[2];
   int PipeOut[2];
   int PipeErr[2];
+  // Other children must not inherit our ends of the pipes, otherwise the child
+  // won't notice that they are closed. (pipe2(2) is not available everywhere)
+  static std::mutex ForkLock;
+  std::unique_lock Lock(ForkLock);
   if (pipe(PipeIn) == -1 || pipe(PipeOut) == -1 || pipe(PipeErr) == -1)
     throw std::system_error(errno, std::generic_category());
+  for (int FD : {PipeIn[WRITE], PipeOut[READ], PipeErr[READ]})
+    fcntl(FD, F_SETFD, FD_CLOEXEC);
 
   pid_t Child = fork();
 
@@ -37,12 +45,13 @@ int nixd::forkPiped(int &In, int &Out, int &Err) {
   close(PipeIn[READ]);
   close(PipeOut[WRITE]);
   close(PipeErr[WRITE]);
+  Lock.unlock();
 
   if (Child == -1)
     throw std::system_error(errno, std::generic_category());
 
   In = PipeIn[WRITE];
   Out = PipeOut[READ];
-  Err = PipeOut[READ];
+  Err = PipeErr[READ];
   return Child;
 }
diff --git a/nixd/lib/Support/StreamProc.cpp b/nixd/lib/Support/StreamProc.cpp
index 6963b0d..651a167 100644
--- a/nixd/lib/Support/StreamProc.cpp
+++ b/nixd/lib/Support/StreamProc.cpp
@@ -1,6 +1,8 @@
 #include "nixd/Support/StreamProc.h"
 #include "nixd/Support/ForkPiped.h"
 
+#include <unistd.h>
+
 using namespace nixd;
 using namespace util;
 using namespace lspserver;
@@ -21,7 +23,7 @@ StreamProc::StreamProc(const std::function<int()> &Action) {
 
   pid_t Child = forkPiped(In, Out, Err);
   if (Child == 0)
-    exit(Action());
+    _exit(Action()); // Handlers of exit(3) belong to the parent process.
 
   // Parent process.
   Proc = std::make_unique<PipedProc>(Child, In, Out, Err);
-- 
2.43.0


From 6d85d3f2193ebde26ec8b1e05eacddec11271cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 58/86] fix: do not hang, crash or leak while formatting

---
 nixd/lib/Controller/Format.cpp | 127 ++++++++++++++++++++++++++-------
 1 file changed, 100 insertions(+), 27 deletions(-)

diff --git a/nixd/lib/Controller/Format.cpp b/nixd/lib/Controller/Format.cpp
index 7368e42..fc0122e 100644
--- a/nixd/lib/Controller/Format.cpp
+++ b/nixd/lib/Controller/Format.cpp
@@ -10,16 +10,97 @@
 #include "nixd/Support/ForkPiped.h"
 
 #include <boost/asio/post.hpp>
+
+#include <array>
+#include <cerrno>
+#include <string_view>
+#include <system_error>
+
+#include <fcntl.h>
+#include <poll.h>
 #include <sys/wait.h>
+#include <unistd.h>
 
 using namespace nixd;
 using namespace lspserver;
 
+namespace {
+
+/// \brief Feed the process with \p Code, and read what it writes.
+///
+/// All of them at the same time, because the process may write before it has
+/// read everything, and is free to close any of them early.
+/// Closes the descriptors.
+std::error_code communicate(int In, int Out, int Err, std::string_view Code,
+                            std::string &Response) {
+  std::array<pollfd, 3> FDs{
+      {{In, POLLOUT, 0}, {Out, POLLIN, 0}, {Err, POLLIN, 0}}};
+  auto Close = [](pollfd &P) {
+    if (P.fd != -1)
+      close(P.fd);
+    P.fd = -1; // Ignored by poll(2)
+  };
+  std::error_code EC;
+  auto Failed = [&EC]() {
+    if (errno == EINTR || errno == EAGAIN)
+      return false;
+    EC = std::error_code(errno, std::generic_category());
+    return true;
+  };
+
+  // Do not block in write(2), nobody would read then.
+  fcntl(In, F_SETFL, fcntl(In, F_GETFL) | O_NONBLOCK);
+
+  if (Code.empty())
+    Close(FDs[0]);
+
+  while (!EC && (FDs[1].fd != -1 || FDs[2].fd != -1)) {
+    if (poll(FDs.data(), FDs.size(), /*timeout=*/-1) == -1) {
+      Failed();
+      continue;
+    }
+    if (FDs[0].fd != -1 && FDs[0].revents) {
+      auto Written = write(FDs[0].fd, Code.data(), Code.size());
+      if (Written >= 0)
+        Code.remove_prefix(Written);
+      // The formatter does not want to read any more, this is not an error.
+      else if (errno == EPIPE)
+        Code = "";
+      else
+        Failed();
+      if (Code.empty())
+        Close(FDs[0]);
+    }
+    for (pollfd *P : {&FDs[1], &FDs[2]}) {
+      if (P->fd == -1 || !P->revents)
+        continue;
+      std::array<char, 4096> Buf;
+      auto Read = read(P->fd, Buf.data(), Buf.size());
+      if (Read == 0)
+        Close(*P);
+      else if (Read < 0)
+        Failed();
+      else if (P == &FDs[1])
+        Response.append(Buf.data(), Read);
+    }
+  }
+  for (pollfd &P : FDs)
+    Close(P);
+  return EC;
+}
+
+} // namespace
+
 void Controller::onFormat(const DocumentFormattingParams &Params,
                           Callback<std::vector<TextEdit>> Reply) {
   auto Action = [this, Params, Reply = std::move(Reply)]() mutable {
     lspserver::PathRef File = Params.textDocument.uri.file();
-    const std::string &Code = *Store.getDraft(File)->Contents;
+    auto Draft = Store.getDraft(File);
+    if (!Draft) {
+      Reply(error("document is not opened: {0}", File));
+      return;
+    }
+    const std::string &Code = *Draft->Contents;
     // Invokes another process and then read it's stdout.
     std::vector<std::string> FormatCommand;
     {
@@ -48,27 +129,26 @@ void Controller::onFormat(const DocumentFormattingParams &Params,
     int Out;
     int Err;
 
-    pid_t Child = forkPiped(In, Out, Err);
+    pid_t Child;
+    try {
+      Child = forkPiped(In, Out, Err);
+    } catch (std::system_error &E) {
+      Reply(error("cannot launch the formatter: {0}", E.what()));
+      return;
+    }
     if (Child == 0) {
       execvp(Syscall[0], Syscall.data());
-      exit(-1);
+      _exit(-1);
     }
-    // Firstly, send the document to the process stdin.
-    // Invoke POSIX write(2) to do such thing.
-    const char *Start = Code.c_str();
-    const char *End = Code.c_str() + Code.size();
-    while (Start != End) {
-      if (long Writen = write(In, Start, End - Start); Writen != -1) {
-        Start += Writen;
-      } else {
-        throw std::system_error(errno, std::generic_category());
-      }
-    }
-    close(In);
+
+    // Send the document to the process stdin, and read its stdout.
+    std::string Response;
+    std::error_code EC = communicate(In, Out, Err, Code, Response);
 
     // And, wait for the process.
     int Exit = 0;
-    waitpid(Child, &Exit, 0);
+    while (waitpid(Child, &Exit, 0) == -1 && errno == EINTR)
+      ;
 
     if (Exit != 0) {
       Reply(error("formatting {0} command exited with {1}", FormatCommand[0],
@@ -76,17 +156,10 @@ void Controller::onFormat(const DocumentFormattingParams &Params,
       return;
     }
 
-    // Okay, read stdout from it.
-    std::string Response;
-    while (true) {
-      char Buf[1024];
-      auto Read = read(Out, Buf, sizeof(Buf));
-      if (Read == 0)
-        break;
-      if (Read < 0)
-        throw std::system_error(errno, std::generic_category());
-      // Otherwise, append it to "response"
-      Response.append(Buf, Read);
+    if (EC) {
+      Reply(
+          error("formatting {0} command: {1}", FormatCommand[0], EC.message()));
+      return;
     }
 
     if (Response == Code) {
-- 
2.43.0


From a183df86502ccbb5b7250f2847076eb9d8614b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 59/86] fix: do not crash on odd positions of packages, and on
 duplicated names in inherit

---
 nixd/lib/Controller/Definition.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index 457dbdd..41d58a8 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -86,7 +86,11 @@ const ExprVar *findInheritVar(const Node &N, const ParentMapAnalysis &PMA,
       return nullptr;
 
     const SemaAttrs &SA = static_cast<const ExprAttrs &>(*Up).sema();
-    const Node *Var = SA.staticAttrs().at(AN.staticName()).value();
+    auto It = SA.staticAttrs().find(AN.staticName());
+    // The name may be a duplicate, e.g. { x = 1; inherit x; }
+    if (It == SA.staticAttrs().end() || &It->second.key() != &AN)
+      return nullptr;
+    const Node *Var = It->second.value();
     assert(Var->kind() == Node::NK_ExprVar);
     return static_cast<const ExprVar *>(Var);
   }
@@ -134,7 +138,7 @@ struct NoLocationsFoundInNixpkgsException : std::exception {
   }
 };
 
-class WorkerReportedException : std::exception {
+class WorkerReportedException : public std::exception {
   llvm::Error E;
 
 public:
@@ -156,15 +160,17 @@ class NixpkgsDefinitionProvider {
 
   /// \brief Parse nix-rolled location: file:line -> lsp Location
   static Location parseLocation(std::string_view Position) {
-    // Firstly, find ":"
-    auto Pos = Position.find_first_of(':');
-    if (Pos == std::string_view::npos) {
+    // Firstly, find the last ":", file names may have some.
+    auto Pos = Position.rfind(':');
+    int PosL = 0;
+    if (Pos == std::string_view::npos ||
+        llvm::StringRef(Position.substr(Pos + 1)).getAsInteger(10, PosL) ||
+        PosL < 0) {
       return Location{
           .uri = URIForFile::canonicalize(Position, Position),
           .range = {{0, 0}, {0, 0}},
       };
     }
-    int PosL = std::stoi(std::string(Position.substr(Pos + 1)));
     lspserver::Position P{PosL, 0};
     std::string_view File = Position.substr(0, Pos);
     return Location{
-- 
2.43.0


From d6467a11c5a81e0109728f38ef7b41d5cb572376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 60/86] fix: do not crash on empty replies to
 workspace/configuration

---
 nixd/lib/Controller/Configuration.cpp | 4 ++++
 nixd/lib/Controller/LifeTime.cpp      | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/Configuration.cpp b/nixd/lib/Controller/Configuration.cpp
index aa6cdba..67f1176 100644
--- a/nixd/lib/Controller/Configuration.cpp
+++ b/nixd/lib/Controller/Configuration.cpp
@@ -106,6 +106,10 @@ void Controller::fetchConfig() {
                       *Resp);
       return;
     }
+    if (Resp->getAsArray()->empty()) {
+      elog("workspace/configuration response is empty");
+      return;
+    }
     const Value &FirstConfig = Resp->getAsArray()->front();
 
     // Run this job in the thread pool. Don't block input thread.
diff --git a/nixd/lib/Controller/LifeTime.cpp b/nixd/lib/Controller/LifeTime.cpp
index 0aac76d..3377ebc 100644
--- a/nixd/lib/Controller/LifeTime.cpp
+++ b/nixd/lib/Controller/LifeTime.cpp
@@ -189,7 +189,9 @@ void Controller::
                            "nixos options");
   }
   try {
-    Config = parseCLIConfig();
+    Configuration CLIConfig = parseCLIConfig();
+    std::lock_guard _(ConfigLock);
+    Config = std::move(CLIConfig);
   } catch (LLVMErrorException &Err) {
     lspserver::elog("parse CLI config error: {0}, {1}", Err.what(),
                     Err.takeError());
-- 
2.43.0


From ab9397b0e82dc90d5f7d0aa0c23e21efd9aeb791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 61/86] fix: do not publish diagnostics of the previous text
 after those of the new one

---
 nixd/lib/Controller/Support.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/Support.cpp b/nixd/lib/Controller/Support.cpp
index d9c1670..b1c6095 100644
--- a/nixd/lib/Controller/Support.cpp
+++ b/nixd/lib/Controller/Support.cpp
@@ -44,10 +44,10 @@ void Controller::actOnDocumentAdd(PathRef File,
     auto VLA = std::make_unique<nixf::VariableLookupAnalysis>(Diagnostics);
     VLA->runOnAST(*AST);
 
-    publishDiagnostics(File, Version, *Src, Diagnostics);
-
     {
+      // Changed configurations publish diagnostics again, of what is in TUs.
       std::lock_guard G(TUsLock);
+      publishDiagnostics(File, Version, *Src, Diagnostics);
       TUs.insert_or_assign(
           File, std::make_shared<NixTU>(std::move(Diagnostics), std::move(AST),
                                         std::nullopt, std::move(VLA), Src));
-- 
2.43.0


From 23c4ee08849c474136bf26f721c538a410311dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 62/86] Revert "fix: send the characters of folding ranges that
 are zero"

The tests of folding ranges expect that zeros are not sent.
---
 nixd/lspserver/src/Protocol.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nixd/lspserver/src/Protocol.cpp b/nixd/lspserver/src/Protocol.cpp
index 01616b3..2827d9e 100644
--- a/nixd/lspserver/src/Protocol.cpp
+++ b/nixd/lspserver/src/Protocol.cpp
@@ -1678,10 +1678,12 @@ const llvm::StringLiteral FoldingRange::IMPORT_KIND = "import";
 llvm::json::Value toJSON(const FoldingRange &Range) {
   llvm::json::Object Result{
       {"startLine", Range.startLine},
-      {"startCharacter", Range.startCharacter},
       {"endLine", Range.endLine},
-      {"endCharacter", Range.endCharacter},
   };
+  if (Range.startCharacter)
+    Result["startCharacter"] = Range.startCharacter;
+  if (Range.endCharacter)
+    Result["endCharacter"] = Range.endCharacter;
   if (!Range.kind.empty())
     Result["kind"] = Range.kind;
   return Result;
-- 
2.43.0


From 224ac3aad47709a9b01214f1bdb782cd8b47d350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 63/86] fix: keep unrelated bindings, rec and inherit when
 packing attributes

---
 nixd/lib/Controller/CodeActions/PackAttrs.cpp | 360 ++++++++++--------
 1 file changed, 204 insertions(+), 156 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/PackAttrs.cpp b/nixd/lib/Controller/CodeActions/PackAttrs.cpp
index 2aec25f..601e1f3 100644
--- a/nixd/lib/Controller/CodeActions/PackAttrs.cpp
+++ b/nixd/lib/Controller/CodeActions/PackAttrs.cpp
@@ -8,7 +8,10 @@
 
 #include <nixf/Basic/Nodes/Attrs.h>
 
-#include <optional>
+#include <algorithm>
+#include <map>
+#include <span>
+#include <vector>
 
 namespace nixd {
 
@@ -18,52 +21,121 @@ namespace {
 /// Prevents stack overflow on maliciously crafted deeply nested inputs.
 constexpr size_t MaxNestedDepth = 100;
 
-/// \brief Get the number of sibling bindings sharing the same first path
-/// segment. Uses SemaAttrs to count nested attributes for the first segment.
-/// Returns 0 if the segment is not found or has conflicts (non-path binding).
-size_t getSiblingCount(const nixf::Binding &Bind,
-                       const nixf::ExprAttrs &ParentAttrs) {
+/// \brief Collect bindings sharing the same first path segment.
+/// Returns an empty vector if they are not nested attribute sets, or have
+/// dynamic names.
+std::vector<const nixf::Binding *>
+collectSiblings(const nixf::Binding &Bind, const nixf::Binds &Binds,
+                const nixf::ExprAttrs &ParentAttrs) {
   const auto &Names = Bind.path().names();
   if (Names.empty() || !Names[0]->isStatic())
-    return 0;
+    return {};
 
   const std::string &FirstSeg = Names[0]->staticName();
   const nixf::SemaAttrs &SA = ParentAttrs.sema();
 
   auto It = SA.staticAttrs().find(FirstSeg);
   if (It == SA.staticAttrs().end())
-    return 0;
+    return {};
 
   const nixf::Attribute &Attr = It->second;
 
   // Check if value is a nested ExprAttrs (path was desugared)
   if (!Attr.value() || Attr.value()->kind() != nixf::Node::NK_ExprAttrs)
-    return 0; // Non-ExprAttrs value = conflict with non-path binding
+    return {}; // Non-ExprAttrs value = conflict with non-path binding
 
   const auto &NestedAttrs = static_cast<const nixf::ExprAttrs &>(*Attr.value());
-  const nixf::SemaAttrs &NestedSA = NestedAttrs.sema();
 
-  // Return 0 if there are dynamic attrs (can't safely pack)
-  if (!NestedSA.dynamicAttrs().empty())
-    return 0;
+  // Nothing if there are dynamic attrs (can't safely pack)
+  if (!NestedAttrs.sema().dynamicAttrs().empty())
+    return {};
 
-  return NestedSA.staticAttrs().size();
+  std::vector<const nixf::Binding *> Siblings;
+  for (const auto &Child : Binds.bindings()) {
+    if (Child->kind() != nixf::Node::NK_Binding)
+      continue;
+    const auto &SibBind = static_cast<const nixf::Binding &>(*Child);
+    const auto &SibNames = SibBind.path().names();
+    if (!SibNames.empty() && SibNames[0] && SibNames[0]->isStatic() &&
+        SibNames[0]->staticName() == FirstSeg)
+      Siblings.emplace_back(&SibBind);
+  }
+  return Siblings;
 }
 
-/// \brief Recursively generate nested attribute set text from SemaAttrs.
+/// \brief Check if packing \p Bind alone would define an attribute twice.
+/// Nix merges nested attribute sets, but not what is nested in them, e.g.
+/// { foo.bar.a = 1; foo = { bar.b = 2; }; }
+bool isPackOneConflict(const nixf::Binding &Bind,
+                       const std::vector<const nixf::Binding *> &Siblings) {
+  const std::string &Second = Bind.path().names()[1]->staticName();
+  for (const nixf::Binding *Sib : Siblings) {
+    if (Sib == &Bind)
+      continue;
+    const auto &Names = Sib->path().names();
+    if (Names.size() > 1) {
+      if (Names[1] && Names[1]->isStatic() && Names[1]->staticName() == Second)
+        return true;
+    } else if (Sib->value() &&
+               Sib->value()->kind() == nixf::Node::NK_ExprAttrs) {
+      const auto &Attrs = static_cast<const nixf::ExprAttrs &>(*Sib->value());
+      if (Attrs.sema().staticAttrs().contains(Second))
+        return true;
+    }
+  }
+  return false;
+}
+
+using NameSpan = std::span<const std::shared_ptr<nixf::AttrName>>;
+
+/// \brief An attribute to be nested, the path is relative to the nested set.
+struct NestedAttr {
+  NameSpan Path;
+  const nixf::Expr *Value;
+};
+
+/// \brief Append attributes of \p E, if it can be merged with others: i.e. it
+/// is a non-recursive attribute set, without inherit and dynamic names.
+bool expandAttrs(const nixf::Expr *E, std::vector<NestedAttr> &Out) {
+  if (!E || E->kind() != nixf::Node::NK_ExprAttrs)
+    return false;
+  const auto &Attrs = static_cast<const nixf::ExprAttrs &>(*E);
+  if (Attrs.isRecursive() || !Attrs.binds())
+    return false;
+  for (const auto &Child : Attrs.binds()->bindings()) {
+    if (Child->kind() != nixf::Node::NK_Binding)
+      return false;
+    const auto &Bind = static_cast<const nixf::Binding &>(*Child);
+    for (const auto &Name : Bind.path().names()) {
+      if (!Name || !Name->isStatic())
+        return false;
+    }
+    Out.emplace_back(Bind.path().names(), Bind.value().get());
+  }
+  return true;
+}
+
+/// \brief Recursively generate nested attribute set text.
 /// This produces the fully packed/nested form of attributes.
 /// \param Depth Current recursion depth (for safety limit)
-void generateNestedText(const nixf::SemaAttrs &SA, llvm::StringRef Src,
-                        std::string &Out, size_t Depth = 0) {
+/// \return false if the attributes cannot be merged.
+bool generateNestedText(const std::vector<NestedAttr> &Attrs,
+                        llvm::StringRef Src, std::string &Out,
+                        size_t Depth = 0) {
   // Safety check: prevent stack overflow from deeply nested structures
-  if (Depth > MaxNestedDepth) {
-    Out += "{ /* max depth exceeded */ }";
-    return;
+  if (Depth > MaxNestedDepth)
+    return false;
+
+  std::map<std::string, std::vector<NestedAttr>> Groups;
+  for (const NestedAttr &A : Attrs) {
+    if (!A.Path[0] || !A.Path[0]->isStatic())
+      return false;
+    Groups[A.Path[0]->staticName()].emplace_back(A.Path.subspan(1), A.Value);
   }
 
   Out += "{ ";
   bool First = true;
-  for (const auto &[Key, Attr] : SA.staticAttrs()) {
+  for (const auto &[Key, Group] : Groups) {
     if (!First)
       Out += " ";
     First = false;
@@ -72,79 +144,62 @@ void generateNestedText(const nixf::SemaAttrs &SA, llvm::StringRef Src,
     Out += quoteNixAttrKey(Key);
     Out += " = ";
 
-    // Check if value is a nested ExprAttrs that needs recursive generation
-    if (Attr.value() && Attr.value()->kind() == nixf::Node::NK_ExprAttrs) {
-      const auto &NestedAttrs =
-          static_cast<const nixf::ExprAttrs &>(*Attr.value());
-      const nixf::SemaAttrs &NestedSA = NestedAttrs.sema();
-
-      // If all nested attrs come from dotted paths (no inherit, no dynamic),
-      // we can generate recursively
-      if (NestedSA.dynamicAttrs().empty() && !Attr.fromInherit()) {
-        generateNestedText(NestedSA, Src, Out, Depth + 1);
-      } else {
-        // Use original source text
-        Out += Attr.value()->src(Src);
-      }
-    } else if (Attr.value()) {
-      Out += Attr.value()->src(Src);
+    std::vector<NestedAttr> Nested;
+    bool Expanded = true;
+    for (const NestedAttr &A : Group) {
+      if (!A.Path.empty())
+        Nested.emplace_back(A);
+      else if (!expandAttrs(A.Value, Nested))
+        Expanded = false;
+    }
+
+    if (Expanded && !Nested.empty()) {
+      if (!generateNestedText(Nested, Src, Out, Depth + 1))
+        return false;
+    } else if (Group.size() == 1) {
+      // Use original source text
+      if (Group[0].Value)
+        Out += Group[0].Value->src(Src);
+    } else {
+      return false;
     }
     Out += ";";
   }
   Out += " }";
+  return true;
 }
 
 /// \brief Generate shallow nested attribute set text from original bindings.
 /// Unlike generateNestedText, this only expands one level and preserves
 /// remaining dotted paths as-is by extracting from original source.
-/// \param Binds The original Binds node containing all bindings
-/// \param FirstSeg The first path segment to match (e.g., "foo" for "foo.bar")
+/// \param Siblings Bindings with at least two path segments
 /// \param Src The source text
 /// \param Out Output string to append to
-void generateShallowNestedText(const nixf::Binds &Binds,
-                               const std::string &FirstSeg, llvm::StringRef Src,
-                               std::string &Out) {
+void generateShallowNestedText(
+    const std::vector<const nixf::Binding *> &Siblings, llvm::StringRef Src,
+    std::string &Out) {
   Out += "{ ";
   bool First = true;
 
-  for (const auto &Child : Binds.bindings()) {
-    if (Child->kind() != nixf::Node::NK_Binding)
-      continue;
-
-    const auto &SibBind = static_cast<const nixf::Binding &>(*Child);
-    const auto &Names = SibBind.path().names();
-
-    // Only process bindings that match the first segment
-    if (Names.empty() || !Names[0]->isStatic() ||
-        Names[0]->staticName() != FirstSeg)
-      continue;
+  for (const nixf::Binding *SibBind : Siblings) {
+    const auto &Names = SibBind->path().names();
 
     if (!First)
       Out += " ";
     First = false;
 
-    if (Names.size() == 1) {
-      // Single segment path (e.g., just "foo") - shouldn't happen in bulk pack
-      // but handle it gracefully by using value directly
-      Out += quoteNixAttrKey(Names[0]->staticName());
+    // Multi-segment path - extract rest of path from source
+    // e.g., "foo.bar.x = 1" -> "bar.x = 1"
+    const nixf::LexerCursor RestStart = Names[1]->range().lCur();
+    const nixf::LexerCursor PathEnd = SibBind->path().range().rCur();
+
+    if (PathEnd.offset() >= RestStart.offset()) {
+      std::string_view RestPath =
+          Src.substr(RestStart.offset(), PathEnd.offset() - RestStart.offset());
+      Out += RestPath;
       Out += " = ";
-      if (SibBind.value()) {
-        Out += SibBind.value()->src(Src);
-      }
-    } else {
-      // Multi-segment path - extract rest of path from source
-      // e.g., "foo.bar.x = 1" -> "bar.x = 1"
-      const nixf::LexerCursor RestStart = Names[1]->range().lCur();
-      const nixf::LexerCursor PathEnd = SibBind.path().range().rCur();
-
-      if (PathEnd.offset() >= RestStart.offset()) {
-        std::string_view RestPath = Src.substr(
-            RestStart.offset(), PathEnd.offset() - RestStart.offset());
-        Out += RestPath;
-        Out += " = ";
-        if (SibBind.value()) {
-          Out += SibBind.value()->src(Src);
-        }
+      if (SibBind->value()) {
+        Out += SibBind->value()->src(Src);
       }
     }
     Out += ";";
@@ -152,34 +207,43 @@ void generateShallowNestedText(const nixf::Binds &Binds,
   Out += " }";
 }
 
-/// \brief Find all sibling bindings that share the same first path segment.
-/// Returns the range covering all such bindings, or nullopt if not applicable.
-std::optional<nixf::LexerCursorRange>
-findSiblingBindingsRange(const nixf::Binding &Bind, const nixf::Binds &Binds,
-                         const std::string &FirstSeg) {
-  nixf::LexerCursor Start = Bind.range().lCur();
-  nixf::LexerCursor End = Bind.range().rCur();
-
-  for (const auto &Sibling : Binds.bindings()) {
-    if (Sibling->kind() != nixf::Node::NK_Binding)
-      continue;
-
-    const auto &SibBind = static_cast<const nixf::Binding &>(*Sibling);
-    const auto &SibNames = SibBind.path().names();
-
-    if (SibNames.empty() || !SibNames[0]->isStatic())
-      continue;
+/// \brief Create an action that replaces all siblings with \p NewText.
+lspserver::CodeAction
+createBulkAction(std::string Title, const std::string &FileURI,
+                 const std::vector<const nixf::Binding *> &Siblings,
+                 llvm::StringRef Src, std::string NewText) {
+  // Replace them at once if there is nothing in between.
+  bool Contiguous = true;
+  for (size_t I = 1; I < Siblings.size(); ++I) {
+    llvm::StringRef Between = Src.slice(Siblings[I - 1]->rCur().offset(),
+                                        Siblings[I]->lCur().offset());
+    if (!Between.trim().empty())
+      Contiguous = false;
+  }
 
-    if (SibNames[0]->staticName() == FirstSeg) {
-      // Expand range to include this sibling
-      if (SibBind.range().lCur().offset() < Start.offset())
-        Start = SibBind.range().lCur();
-      if (SibBind.range().rCur().offset() > End.offset())
-        End = SibBind.range().rCur();
+  std::vector<lspserver::TextEdit> Edits;
+  if (Contiguous) {
+    Edits.emplace_back(lspserver::TextEdit{
+        .range =
+            toLSPRange(Src, nixf::LexerCursorRange{Siblings.front()->lCur(),
+                                                   Siblings.back()->rCur()}),
+        .newText = std::move(NewText)});
+  } else {
+    // Keep everything else: replace the first one, and remove the others.
+    for (const nixf::Binding *Sib : Siblings) {
+      Edits.emplace_back(
+          lspserver::TextEdit{.range = toLSPRange(Src, Sib->range()),
+                              .newText = std::move(NewText)});
+      NewText.clear();
     }
   }
-
-  return nixf::LexerCursorRange{Start, End};
+  using Changes = std::map<std::string, std::vector<lspserver::TextEdit>>;
+  return lspserver::CodeAction{
+      .title = std::move(Title),
+      .kind = std::string(lspserver::CodeAction::REFACTOR_REWRITE_KIND),
+      .edit = lspserver::WorkspaceEdit{.changes = Changes{{FileURI,
+                                                           std::move(Edits)}}},
+  };
 }
 
 } // namespace
@@ -219,9 +283,10 @@ void addPackAttrsAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
     return;
 
   const std::string &FirstSeg = Names[0]->staticName();
-  size_t SiblingCount = getSiblingCount(Bind, ParentAttrs);
+  const auto Siblings = collectSiblings(
+      Bind, static_cast<const nixf::Binds &>(*BindsNode), ParentAttrs);
 
-  if (SiblingCount == 0)
+  if (Siblings.empty())
     return; // Can't pack (dynamic attrs or other conflicts)
 
   // Helper lambda to generate Pack One action text
@@ -255,37 +320,8 @@ void addPackAttrsAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
     return NewText;
   };
 
-  if (SiblingCount == 1) {
-    // Single binding - offer simple pack action
-    std::string NewText = GeneratePackOneText();
-    if (NewText.empty())
-      return;
-
-    Actions.emplace_back(createSingleEditAction(
-        "Pack dotted path to nested set",
-        lspserver::CodeAction::REFACTOR_REWRITE_KIND, FileURI,
-        toLSPRange(Src, Bind.range()), std::move(NewText)));
-  } else {
-    // Multiple siblings share the prefix - offer Pack One and bulk pack actions
-    const nixf::SemaAttrs &SA = ParentAttrs.sema();
-    auto It = SA.staticAttrs().find(FirstSeg);
-    if (It == SA.staticAttrs().end())
-      return;
-
-    const nixf::Attribute &Attr = It->second;
-    if (!Attr.value() || Attr.value()->kind() != nixf::Node::NK_ExprAttrs)
-      return;
-
-    const auto &NestedAttrs =
-        static_cast<const nixf::ExprAttrs &>(*Attr.value());
-
-    // Find the range covering all sibling bindings (needed for bulk actions)
-    const auto &ParentBinds = static_cast<const nixf::Binds &>(*BindsNode);
-    auto BulkRange = findSiblingBindingsRange(Bind, ParentBinds, FirstSeg);
-    if (!BulkRange)
-      return;
-
-    // Action 1: Pack One - pack only the current binding
+  // Action 1: Pack One - pack only the current binding
+  if (!isPackOneConflict(Bind, Siblings)) {
     std::string PackOneText = GeneratePackOneText();
     if (!PackOneText.empty()) {
       Actions.emplace_back(createSingleEditAction(
@@ -293,31 +329,43 @@ void addPackAttrsAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
           lspserver::CodeAction::REFACTOR_REWRITE_KIND, FileURI,
           toLSPRange(Src, Bind.range()), std::move(PackOneText)));
     }
-
-    // Action 2: Shallow Pack All - pack all siblings but only one level deep
-    std::string ShallowText;
-    ShallowText += quoteNixAttrKey(FirstSeg);
-    ShallowText += " = ";
-    generateShallowNestedText(ParentBinds, FirstSeg, Src, ShallowText);
-    ShallowText += ";";
-
-    Actions.emplace_back(createSingleEditAction(
-        "Pack all '" + FirstSeg + "' bindings to nested set",
-        lspserver::CodeAction::REFACTOR_REWRITE_KIND, FileURI,
-        toLSPRange(Src, *BulkRange), std::move(ShallowText)));
-
-    // Action 3: Recursive Pack All - fully nest all sibling bindings
-    std::string RecursiveText;
-    RecursiveText += quoteNixAttrKey(FirstSeg);
-    RecursiveText += " = ";
-    generateNestedText(NestedAttrs.sema(), Src, RecursiveText);
-    RecursiveText += ";";
-
-    Actions.emplace_back(createSingleEditAction(
-        "Recursively pack all '" + FirstSeg + "' bindings to nested set",
-        lspserver::CodeAction::REFACTOR_REWRITE_KIND, FileURI,
-        toLSPRange(Src, *BulkRange), std::move(RecursiveText)));
   }
+
+  // Multiple siblings share the prefix - offer bulk pack actions.
+  // Siblings like "foo = { ... };" are nested already.
+  if (Siblings.size() == 1 ||
+      std::any_of(
+          Siblings.begin(), Siblings.end(), [](const nixf::Binding *Sib) {
+            return Sib->path().names().size() < 2 || !Sib->path().names()[1];
+          }))
+    return;
+
+  // Action 2: Shallow Pack All - pack all siblings but only one level deep
+  std::string ShallowText;
+  ShallowText += quoteNixAttrKey(FirstSeg);
+  ShallowText += " = ";
+  generateShallowNestedText(Siblings, Src, ShallowText);
+  ShallowText += ";";
+
+  Actions.emplace_back(
+      createBulkAction("Pack all '" + FirstSeg + "' bindings to nested set",
+                       FileURI, Siblings, Src, std::move(ShallowText)));
+
+  // Action 3: Recursive Pack All - fully nest all sibling bindings
+  std::vector<NestedAttr> Nested;
+  for (const nixf::Binding *Sib : Siblings)
+    Nested.emplace_back(NameSpan(Sib->path().names()).subspan(1),
+                        Sib->value().get());
+  std::string RecursiveText;
+  RecursiveText += quoteNixAttrKey(FirstSeg);
+  RecursiveText += " = ";
+  if (!generateNestedText(Nested, Src, RecursiveText))
+    return;
+  RecursiveText += ";";
+
+  Actions.emplace_back(createBulkAction(
+      "Recursively pack all '" + FirstSeg + "' bindings to nested set", FileURI,
+      Siblings, Src, std::move(RecursiveText)));
 }
 
 } // namespace nixd
-- 
2.43.0


From 0b7ad54842ee8411bc358eaf888793b50770e672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 64/86] fix: quote names and parenthesize sources when
 expanding inherit

---
 .../CodeActions/InheritToBinding.cpp          | 38 +++++++++++++++++--
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/InheritToBinding.cpp b/nixd/lib/Controller/CodeActions/InheritToBinding.cpp
index faa5fbe..826f6f5 100644
--- a/nixd/lib/Controller/CodeActions/InheritToBinding.cpp
+++ b/nixd/lib/Controller/CodeActions/InheritToBinding.cpp
@@ -7,11 +7,31 @@
 #include "../Convert.h"
 
 #include <nixf/Basic/Nodes/Attrs.h>
+#include <nixf/Basic/Nodes/Expr.h>
+#include <nixf/Basic/Nodes/Simple.h>
 
 #include <sstream>
 
 namespace nixd {
 
+namespace {
+
+/// \brief Check if ".name" may follow the expression as it is written.
+bool isSelectable(const nixf::Expr &E) {
+  switch (E.kind()) {
+  case nixf::Node::NK_ExprVar:
+  case nixf::Node::NK_ExprParen:
+  case nixf::Node::NK_ExprAttrs:
+    return true;
+  case nixf::Node::NK_ExprSelect:
+    return !static_cast<const nixf::ExprSelect &>(E).defaultExpr();
+  default:
+    return false;
+  }
+}
+
+} // namespace
+
 void addInheritToBindingAction(const nixf::Node &N,
                                const nixf::ParentMapAnalysis &PM,
                                const std::string &FileURI, llvm::StringRef Src,
@@ -45,13 +65,25 @@ void addInheritToBindingAction(const nixf::Node &N,
 
   // Build the replacement text
   std::ostringstream NewText;
-  NewText << AttrName << " = ";
+  NewText << quoteNixAttrKey(AttrName) << " = ";
 
-  if (Inherit.expr()) {
+  if (const nixf::Expr *E = Inherit.expr().get()) {
     // inherit (expr) name; -> name = expr.name;
-    NewText << Inherit.expr()->src(Src) << "." << AttrName;
+    if (isSelectable(*E))
+      NewText << E->src(Src);
+    else
+      NewText << "(" << E->src(Src) << ")";
+    NewText << "." << quoteNixAttrKey(AttrName);
   } else {
     // inherit name; -> name = name;
+    // This needs a name that can be a variable, and in a recursive attribute
+    // set (or "let") the binding would refer to itself.
+    if (!isValidNixIdentifier(AttrName))
+      return;
+    const nixf::Node *AttrsNode = PM.upTo(Inherit, nixf::Node::NK_ExprAttrs);
+    if (!AttrsNode ||
+        static_cast<const nixf::ExprAttrs &>(*AttrsNode).isRecursive())
+      return;
     NewText << AttrName;
   }
   NewText << ";";
-- 
2.43.0


From eab0fc8e9ab9de54fa487470ddbc9df3c53a959b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 65/86] fix: do not convert a with whose names its own set
 needs

---
 nixd/lib/Controller/CodeActions/WithToLet.cpp | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/CodeActions/WithToLet.cpp b/nixd/lib/Controller/CodeActions/WithToLet.cpp
index 6487101..b14efaa 100644
--- a/nixd/lib/Controller/CodeActions/WithToLet.cpp
+++ b/nixd/lib/Controller/CodeActions/WithToLet.cpp
@@ -87,6 +87,26 @@ collectWithVariables(const nixf::ExprWith &With,
   return VarNames;
 }
 
+/// \brief Check if any variable within \p N has one of the names.
+bool mentionsAny(const nixf::Node &N, const std::set<std::string> &VarNames) {
+  if (N.kind() == nixf::Node::NK_ExprVar)
+    return VarNames.contains(static_cast<const nixf::ExprVar &>(N).id().name());
+  if (N.kind() == nixf::Node::NK_Inherit) {
+    const auto &Inherit = static_cast<const nixf::Inherit &>(N);
+    if (!Inherit.expr()) {
+      for (const auto &Name : Inherit.names()) {
+        if (Name && Name->isStatic() && VarNames.contains(Name->staticName()))
+          return true;
+      }
+    }
+  }
+  for (const nixf::Node *Ch : N.children()) {
+    if (Ch && mentionsAny(*Ch, VarNames))
+      return true;
+  }
+  return false;
+}
+
 /// \brief Generate the let/inherit replacement text.
 /// Format: let inherit (source) var1 var2 ...; in body
 std::string generateLetInherit(const nixf::ExprWith &With,
@@ -118,8 +138,9 @@ std::string generateLetInherit(const nixf::ExprWith &With,
 
   // Add sorted variable names
   for (const auto &Name : VarNames) {
+    // Quoted names can come from "with" as well: inherit "a b";
     Result += " ";
-    Result += Name;
+    Result += quoteNixAttrKey(Name);
   }
 
   Result += "; in ";
@@ -162,6 +183,12 @@ void addWithToLetAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
   if (VarNames.empty())
     return;
 
+  // Skip if the source expression refers to one of the names, it would refer to
+  // the new binding then, i.e. itself:
+  //   with x; x -> let inherit (x) x; in x
+  if (With.with() && mentionsAny(*With.with(), VarNames))
+    return;
+
   // Generate the replacement text
   std::string NewText = generateLetInherit(With, VarNames, Src);
   if (NewText.empty())
-- 
2.43.0


From 446f0b90cd8a08740b6b93c3445bd69aef99c13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 66/86] fix: keep an unquoted attribute name apart from its
 neighbours

---
 nixd/lib/Controller/CodeActions/AttrName.cpp | 43 ++++++++++++++++++--
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/AttrName.cpp b/nixd/lib/Controller/CodeActions/AttrName.cpp
index fa76862..de478a7 100644
--- a/nixd/lib/Controller/CodeActions/AttrName.cpp
+++ b/nixd/lib/Controller/CodeActions/AttrName.cpp
@@ -8,8 +8,37 @@
 
 #include <nixf/Basic/Nodes/Attrs.h>
 
+#include <llvm/ADT/StringExtras.h>
+
 namespace nixd {
 
+namespace {
+
+bool isIdentifierChar(char C) {
+  return llvm::isAlnum(C) || C == '_' || C == '-' || C == '\'';
+}
+
+/// \brief Check if an identifier at \p Offset would be glued to the left.
+bool isTokenCharBefore(llvm::StringRef Src, size_t Offset) {
+  return Offset > 0 && isIdentifierChar(Src[Offset - 1]);
+}
+
+/// \brief Check if an identifier ending at \p Offset would be glued to the
+/// right, also as a path, e.g. a."b"/c
+bool isTokenCharAfter(llvm::StringRef Src, size_t Offset) {
+  llvm::StringRef Rest = Src.drop_front(Offset);
+  if (Rest.empty())
+    return false;
+  if (isIdentifierChar(Rest.front()) || Rest.front() == ':')
+    return true;
+  return Rest
+      .drop_while(
+          [](char C) { return isIdentifierChar(C) || C == '.' || C == '+'; })
+      .starts_with("/");
+}
+
+} // namespace
+
 void addAttrNameActions(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
                         const std::string &FileURI, llvm::StringRef Src,
                         std::vector<lspserver::CodeAction> &Actions) {
@@ -30,10 +59,16 @@ void addAttrNameActions(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
     // Offer to unquote if valid identifier: "foo" -> foo
     const std::string &Name = AN.staticName();
     if (isValidNixIdentifier(Name)) {
-      Actions.emplace_back(
-          createSingleEditAction("Unquote attribute name",
-                                 lspserver::CodeAction::REFACTOR_REWRITE_KIND,
-                                 FileURI, toLSPRange(Src, AN.range()), Name));
+      // Quotes separate tokens as well, e.g. a."b"or c
+      std::string NewText = Name;
+      if (isTokenCharBefore(Src, AN.lCur().offset()))
+        NewText.insert(0, " ");
+      if (isTokenCharAfter(Src, AN.rCur().offset()))
+        NewText += " ";
+      Actions.emplace_back(createSingleEditAction(
+          "Unquote attribute name",
+          lspserver::CodeAction::REFACTOR_REWRITE_KIND, FileURI,
+          toLSPRange(Src, AN.range()), std::move(NewText)));
     }
   }
 }
-- 
2.43.0


From fc0e0a55e8e1064af2bdc88f29e4802e34c4994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:04 +0000
Subject: [PATCH 67/86] fix: keep the value of strings when rewriting them

---
 .../Controller/CodeActions/RewriteString.cpp  | 263 +++++++++++++++---
 1 file changed, 225 insertions(+), 38 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/RewriteString.cpp b/nixd/lib/Controller/CodeActions/RewriteString.cpp
index 5b199b0..f27035c 100644
--- a/nixd/lib/Controller/CodeActions/RewriteString.cpp
+++ b/nixd/lib/Controller/CodeActions/RewriteString.cpp
@@ -8,6 +8,10 @@
 
 #include <nixf/Basic/Nodes/Simple.h>
 
+#include <limits>
+#include <string>
+#include <vector>
+
 namespace nixd {
 
 namespace {
@@ -23,78 +27,251 @@ bool isIndentedString(llvm::StringRef Src,
   return Src[Offset] == '\'' && Src[Offset + 1] == '\'';
 }
 
+/// \brief A piece of a string: either some text, or an interpolation.
+struct Piece {
+  /// Source text of the interpolation, or the value of the text.
+  std::string Text;
+  bool IsInterpolation = false;
+  /// Text that does not contribute to the indentation (it was escaped).
+  bool IsLiteral = false;
+};
+
+/// \brief Drop the indentation of the lines, as Nix does.
+void stripIndentation(std::vector<Piece> &Pieces) {
+  bool AtStartOfLine = true;
+  size_t MinIndent = std::numeric_limits<size_t>::max();
+  size_t CurIndent = 0;
+  for (const Piece &P : Pieces) {
+    if (P.IsInterpolation || P.IsLiteral) {
+      if (AtStartOfLine) {
+        AtStartOfLine = false;
+        MinIndent = std::min(MinIndent, CurIndent);
+      }
+      continue;
+    }
+    for (char C : P.Text) {
+      if (C == '\n') {
+        AtStartOfLine = true;
+        CurIndent = 0;
+      } else if (AtStartOfLine && C == ' ') {
+        ++CurIndent;
+      } else if (AtStartOfLine) {
+        AtStartOfLine = false;
+        MinIndent = std::min(MinIndent, CurIndent);
+      }
+    }
+  }
+
+  AtStartOfLine = true;
+  size_t Dropped = 0;
+  for (Piece &P : Pieces) {
+    if (P.IsInterpolation) {
+      AtStartOfLine = false;
+      Dropped = 0;
+      continue;
+    }
+    std::string Result;
+    for (char C : P.Text) {
+      if (AtStartOfLine && C == ' ') {
+        if (Dropped++ >= MinIndent)
+          Result += C;
+        continue;
+      }
+      Result += C;
+      AtStartOfLine = C == '\n';
+      Dropped = 0;
+    }
+    P.Text = std::move(Result);
+  }
+
+  // The line of the closing quotes, if it is blank, is not part of the value.
+  if (!Pieces.empty() && !Pieces.back().IsInterpolation) {
+    std::string &Last = Pieces.back().Text;
+    size_t Newline = Last.rfind('\n');
+    if (Newline != std::string::npos &&
+        Last.find_first_not_of(' ', Newline + 1) == std::string::npos)
+      Last.resize(Newline + 1);
+  }
+}
+
+/// \brief Split the source of an indented string (without its quotes).
+void splitIndentedText(llvm::StringRef Text, std::vector<Piece> &Pieces) {
+  std::string Plain;
+  auto Flush = [&]() {
+    if (!Plain.empty())
+      Pieces.push_back({Plain, false, false});
+    Plain.clear();
+  };
+  auto Literal = [&](llvm::StringRef Value) {
+    Flush();
+    Pieces.push_back({Value.str(), false, true});
+  };
+  while (!Text.empty()) {
+    if (Text.consume_front("''$")) {
+      Literal("$");
+    } else if (Text.consume_front("'''")) {
+      Literal("''");
+    } else if (Text.size() > 3 && Text.starts_with("''\\")) {
+      switch (char C = Text[3]) {
+      case 'n':
+        Literal("\n");
+        break;
+      case 'r':
+        Literal("\r");
+        break;
+      case 't':
+        Literal("\t");
+        break;
+      default:
+        Literal(llvm::StringRef(&C, 1));
+      }
+      Text = Text.drop_front(4);
+    } else {
+      Plain += Text.front();
+      Text = Text.drop_front();
+    }
+  }
+  Flush();
+}
+
+/// \brief The pieces of an indented string, without its indentation.
+///
+/// The nodes have the interpolations, but the text is not split in a way that
+/// tells spaces of the indentation from escaped ones, thus look at the source.
+std::vector<Piece> getIndentedPieces(const nixf::ExprString &Str,
+                                     llvm::StringRef Src) {
+  std::vector<Piece> Pieces;
+  size_t Pos = Str.lCur().offset() + 2;
+  size_t End = Str.rCur().offset() - 2;
+
+  // Blanks between the quotes and the end of that line are not in the value.
+  size_t LineEnd = Src.find_first_not_of(' ', Pos);
+  if (LineEnd < End && Src[LineEnd] == '\n')
+    Pos = LineEnd + 1;
+
+  for (const auto &Frag : Str.parts().fragments()) {
+    if (Frag.kind() != nixf::InterpolablePart::SPK_Interpolation)
+      continue;
+    const nixf::Interpolation &Interp = Frag.interpolation();
+    splitIndentedText(Src.slice(Pos, Interp.lCur().offset()), Pieces);
+    Pieces.push_back({std::string(Interp.src(Src)), true, false});
+    Pos = Interp.rCur().offset();
+  }
+  splitIndentedText(Src.slice(Pos, End), Pieces);
+
+  stripIndentation(Pieces);
+  return Pieces;
+}
+
+/// \brief The pieces of a double-quoted string.
+std::vector<Piece> getQuotedPieces(const nixf::ExprString &Str,
+                                   llvm::StringRef Src) {
+  std::vector<Piece> Pieces;
+  for (const auto &Frag : Str.parts().fragments()) {
+    if (Frag.kind() == nixf::InterpolablePart::SPK_Escaped)
+      Pieces.push_back({Frag.escaped(), false, false});
+    else
+      Pieces.push_back(
+          {std::string(Frag.interpolation().src(Src)), true, false});
+  }
+  return Pieces;
+}
+
+/// \brief Join texts that are next to each other.
+std::vector<Piece> mergeTexts(std::vector<Piece> Pieces) {
+  std::vector<Piece> Result;
+  for (Piece &P : Pieces) {
+    if (!P.IsInterpolation && P.Text.empty())
+      continue;
+    if (!P.IsInterpolation && !Result.empty() && !Result.back().IsInterpolation)
+      Result.back().Text += P.Text;
+    else
+      Result.push_back(std::move(P));
+  }
+  return Result;
+}
+
 /// \brief Escape a string for indented string literal syntax.
 ///
 /// Escapes:
 /// - '' -> ''' (two single quotes become three)
 /// - ${ -> ''${ (prevent interpolation)
-std::string escapeForIndentedString(llvm::StringRef S) {
+/// - single quotes and dollars that would form such a sequence with what
+///   follows, carriage returns, and the spaces and newlines that would be taken
+///   for indentation
+std::string escapeForIndentedString(llvm::StringRef S, bool IsFirst,
+                                    bool IsLast) {
   std::string Result;
   Result.reserve(S.size() + S.size() / 8);
 
+  // The last space of a blank last line, which is otherwise dropped.
+  size_t LastSpace = llvm::StringRef::npos;
+  if (IsLast && S.ends_with(" ") && S.rtrim(' ').ends_with("\n"))
+    LastSpace = S.size() - 1;
+
   for (size_t I = 0; I < S.size(); ++I) {
     char C = S[I];
+    bool HasNext = I + 1 < S.size();
 
     // Check for '' sequence that needs escaping
-    if (C == '\'' && I + 1 < S.size() && S[I + 1] == '\'') {
+    if (C == '\'' && HasNext && S[I + 1] == '\'') {
       Result += "'''";
       ++I; // Skip the second quote
       continue;
     }
 
-    // Check for ${ that needs escaping
-    if (C == '$' && I + 1 < S.size() && S[I + 1] == '{') {
-      Result += "''${";
-      ++I; // Skip the '{'
+    // Check for ${ that needs escaping, or a $ before an interpolation
+    if (C == '$' && (HasNext ? S[I + 1] == '{' : !IsLast)) {
+      Result += "''$";
       continue;
     }
 
-    Result += C;
+    if (C == '\'' && (!HasNext || S[I + 1] == '$' || S[I + 1] == '\r'))
+      Result += "''\\'";
+    else if (C == '\r')
+      Result += "''\\r";
+    else if (C == '\n' && IsFirst && I == 0)
+      Result += "''\\n";
+    else if (C == ' ' && ((IsFirst && I == 0) || I == LastSpace))
+      Result += "''\\ ";
+    else
+      Result += C;
   }
 
   return Result;
 }
 
-/// \brief Build a double-quoted string from InterpolatedParts.
-///
-/// Iterates through fragments, escaping text parts and preserving
-/// interpolations from source.
-std::string buildDoubleQuotedString(const nixf::InterpolatedParts &Parts,
-                                    llvm::StringRef Src) {
+/// \brief Write pieces as a double-quoted string.
+std::string buildDoubleQuotedString(const std::vector<Piece> &Pieces) {
   std::string Result = "\"";
 
-  for (const auto &Frag : Parts.fragments()) {
-    if (Frag.kind() == nixf::InterpolablePart::SPK_Escaped) {
-      // Escape the unescaped content for double-quoted string
-      Result += escapeNixString(Frag.escaped());
-    } else {
-      // SPK_Interpolation: preserve source text exactly
-      const nixf::Interpolation &Interp = Frag.interpolation();
-      Result += Interp.src(Src);
+  for (size_t I = 0; I < Pieces.size(); ++I) {
+    if (Pieces[I].IsInterpolation) {
+      // Preserve source text exactly
+      Result += Pieces[I].Text;
+      continue;
     }
+    std::string Text = escapeNixString(Pieces[I].Text);
+    // "$${" is not an interpolation
+    if (Text.back() == '$' && I + 1 < Pieces.size())
+      Text.insert(Text.size() - 1, "\\");
+    Result += Text;
   }
 
   Result += "\"";
   return Result;
 }
 
-/// \brief Build an indented string from InterpolatedParts.
-///
-/// Iterates through fragments, escaping text parts and preserving
-/// interpolations from source.
-std::string buildIndentedString(const nixf::InterpolatedParts &Parts,
-                                llvm::StringRef Src) {
+/// \brief Write pieces as an indented string.
+std::string buildIndentedString(const std::vector<Piece> &Pieces) {
   std::string Result = "''";
 
-  for (const auto &Frag : Parts.fragments()) {
-    if (Frag.kind() == nixf::InterpolablePart::SPK_Escaped) {
-      // Escape the unescaped content for indented string
-      Result += escapeForIndentedString(Frag.escaped());
-    } else {
-      // SPK_Interpolation: preserve source text exactly
-      const nixf::Interpolation &Interp = Frag.interpolation();
-      Result += Interp.src(Src);
-    }
+  for (size_t I = 0; I < Pieces.size(); ++I) {
+    if (Pieces[I].IsInterpolation)
+      Result += Pieces[I].Text;
+    else
+      Result += escapeForIndentedString(Pieces[I].Text, I == 0,
+                                        I + 1 == Pieces.size());
   }
 
   Result += "''";
@@ -128,11 +305,21 @@ void addRewriteStringAction(const nixf::Node &N,
 
   if (IsIndented) {
     // Convert indented -> double-quoted
-    NewText = buildDoubleQuotedString(Str.parts(), Src);
+    if (Str.src(Src).size() < 4 || !Str.src(Src).ends_with("''"))
+      return; // Not terminated.
+    NewText = buildDoubleQuotedString(mergeTexts(getIndentedPieces(Str, Src)));
     Title = "Convert to double-quoted string";
   } else {
     // Convert double-quoted -> indented
-    NewText = buildIndentedString(Str.parts(), Src);
+    NewText = buildIndentedString(mergeTexts(getQuotedPieces(Str, Src)));
+
+    // Single quotes may continue the token before or after the string.
+    size_t Begin = Str.lCur().offset();
+    size_t End = Str.rCur().offset();
+    if (Begin > 0 && !llvm::StringRef(" \t\r\n([{;").contains(Src[Begin - 1]))
+      NewText.insert(0, " ");
+    if (End < Src.size() && Src[End] == '\'')
+      NewText += ' ';
     Title = "Convert to indented string";
   }
 
-- 
2.43.0


From f127cccaef839a3e2f559dd5ced2e2906dfbfec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:54 +0000
Subject: [PATCH 68/86] fix: write JSON numbers and strings as Nix can read
 them

---
 nixd/lib/Controller/CodeActions/JsonToNix.cpp | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/CodeActions/JsonToNix.cpp b/nixd/lib/Controller/CodeActions/JsonToNix.cpp
index 71ad4e3..962e799 100644
--- a/nixd/lib/Controller/CodeActions/JsonToNix.cpp
+++ b/nixd/lib/Controller/CodeActions/JsonToNix.cpp
@@ -7,7 +7,10 @@
 #include <llvm/Support/JSON.h>
 #include <lspserver/SourceCode.h>
 
+#include <algorithm>
+#include <cmath>
 #include <iomanip>
+#include <limits>
 #include <sstream>
 
 namespace nixd {
@@ -33,13 +36,24 @@ std::string jsonToNix(const llvm::json::Value &V, size_t Indent = 0,
   } else if (auto B = V.getAsBoolean()) {
     Out = *B ? "true" : "false";
   } else if (auto I = V.getAsInteger()) {
-    Out = std::to_string(*I);
+    // There are no negative literals, and thus none for the minimum.
+    if (*I == std::numeric_limits<int64_t>::min())
+      Out = "(" + std::to_string(*I + 1) + " - 1)";
+    else
+      Out = std::to_string(*I);
   } else if (auto D = V.getAsNumber()) {
+    if (!std::isfinite(*D))
+      return ""; // Not representable
     // Format floating point with enough precision
     std::ostringstream SS;
     SS << std::setprecision(17) << *D;
     Out = SS.str();
+    // Nix requires a dot in floating point literals
+    if (Out.find('.') == std::string::npos)
+      Out.insert(std::min(Out.find('e'), Out.size()), ".0");
   } else if (auto S = V.getAsString()) {
+    if (S->contains('\0'))
+      return ""; // Not representable
     Out = "\"" + escapeNixString(*S) + "\"";
   } else if (const auto *A = V.getAsArray()) {
     if (A->size() > MaxJsonWidth)
@@ -57,6 +71,9 @@ std::string jsonToNix(const llvm::json::Value &V, size_t Indent = 0,
         std::string Elem = jsonToNix((*A)[I], Indent + 1, Depth + 1);
         if (Elem.empty())
           return ""; // Propagate error
+        // Elements of lists cannot have operators
+        if (Elem.front() == '-')
+          Elem = "(" + Elem + ")";
         Out += NextIndent + Elem;
         if (I + 1 < A->size())
           Out += "\n";
@@ -77,6 +94,8 @@ std::string jsonToNix(const llvm::json::Value &V, size_t Indent = 0,
       Out = "{\n";
       size_t I = 0;
       for (const auto &KV : *O) {
+        if (KV.first.str().find('\0') != std::string::npos)
+          return ""; // Not representable
         std::string Key = quoteNixAttrKey(KV.first.str());
         std::string Val = jsonToNix(KV.second, Indent + 1, Depth + 1);
         if (Val.empty())
-- 
2.43.0


From 92be9f050d5a766793861afd82b837b29e255cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:52 +0000
Subject: [PATCH 69/86] fix: extract expressions to files such that they mean
 the same

---
 .../Controller/CodeActions/ExtractToFile.cpp  | 227 ++++++++++++------
 1 file changed, 152 insertions(+), 75 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/ExtractToFile.cpp b/nixd/lib/Controller/CodeActions/ExtractToFile.cpp
index 9d3fd9b..2f39785 100644
--- a/nixd/lib/Controller/CodeActions/ExtractToFile.cpp
+++ b/nixd/lib/Controller/CodeActions/ExtractToFile.cpp
@@ -11,9 +11,12 @@
 #include <nixf/Basic/Nodes/Lambda.h>
 #include <nixf/Basic/Nodes/Simple.h>
 
+#include <lspserver/URI.h>
+
 #include <llvm/Support/FileSystem.h>
 #include <llvm/Support/Path.h>
 
+#include <algorithm>
 #include <set>
 #include <string_view>
 
@@ -24,79 +27,119 @@ namespace {
 /// \brief Result of free variable collection.
 struct FreeVariableResult {
   std::set<std::string> FreeVars;
-  bool HasWithVars; ///< True if any variables come from 'with' scope
+  bool HasWithVars = false; ///< True if any variables come from 'with' scope
+  /// False if the variables cannot be passed to another file.
+  bool IsExtractable = true;
 };
 
+/// \brief Check if a node is inside (or equal to) the root node.
+bool isInsideNode(const nixf::Node &N, const nixf::Node &Root) {
+  // Check if N's range is within Root's range
+  const auto &NRange = N.range();
+  const auto &RootRange = Root.range();
+  return NRange.lCur().offset() >= RootRange.lCur().offset() &&
+         NRange.rCur().offset() <= RootRange.rCur().offset();
+}
+
 /// \brief Collect all free variables used within an expression subtree.
 ///
-/// A free variable is one that is used (ExprVar) but defined outside the
-/// expression being extracted. We traverse the subtree and collect variable
-/// names that resolve to definitions outside our scope.
-class FreeVariableCollector {
-  const nixf::VariableLookupAnalysis &VLA;
-  const nixf::Node &Root;
-  std::set<std::string> FreeVars;
-  bool HasWithVars = false;
-
-  void collect(const nixf::Node &N) {
-    // If this is a variable reference, check if it's free
-    if (N.kind() == nixf::Node::NK_ExprVar) {
-      const auto &Var = static_cast<const nixf::ExprVar &>(N);
-      auto Result = VLA.query(Var);
-
-      // Variable is free if:
-      // - It's defined (not undefined/error)
-      // - Its definition is outside our extraction root
-      // - It's not a builtin
-      if (Result.Kind ==
-              nixf::VariableLookupAnalysis::LookupResultKind::Defined &&
-          Result.Def && !Result.Def->isBuiltin()) {
-        const nixf::Node *DefSyntax = Result.Def->syntax();
-        if (DefSyntax && !isInsideNode(DefSyntax, Root)) {
-          // This variable is defined outside our subtree - it's free
-          FreeVars.insert(std::string(Var.id().name()));
-        }
-      }
-      // Variables from 'with' are implicitly free since they depend on scope
-      // Note: These may not work correctly after extraction since the 'with'
-      // context is lost. We track this to warn the user.
-      else if (Result.Kind ==
-               nixf::VariableLookupAnalysis::LookupResultKind::FromWith) {
-        FreeVars.insert(std::string(Var.id().name()));
-        HasWithVars = true;
+/// A free variable is one that is used within the subtree (including names
+/// that are inherited), but defined outside of it, that is, in the environment
+/// of the expression being extracted.
+FreeVariableResult collectFreeVariables(const nixf::VariableLookupAnalysis &VLA,
+                                        const nixf::Node &Root) {
+  FreeVariableResult Result;
+  const nixf::EnvNode *Env = VLA.env(&Root);
+  if (!Env) {
+    Result.IsExtractable = false;
+    return Result;
+  }
+
+  for (; Env; Env = Env->parent()) {
+    for (const auto &[Name, Def] : Env->defs()) {
+      if (!Def || Def->isBuiltin())
+        continue;
+      // The file is imported by the builtin function.
+      if (Name == "import")
+        Result.IsExtractable = false;
+      for (const nixf::ExprVar *Var : Def->uses()) {
+        if (Var && isInsideNode(*Var, Root))
+          Result.FreeVars.insert(Var->id().name());
       }
     }
 
-    // Recursively collect from children
-    for (const auto &Child : N.children()) {
-      if (Child)
-        collect(*Child);
+    // Variables from 'with' are implicitly free since they depend on scope
+    if (!Env->isWith())
+      continue;
+    const auto &With = static_cast<const nixf::ExprWith &>(*Env->syntax());
+    const nixf::Definition *Def = VLA.toDef(With.kwWith());
+    if (!Def)
+      continue;
+    for (const nixf::ExprVar *Var : Def->uses()) {
+      if (!Var || !isInsideNode(*Var, Root))
+        continue;
+      Result.FreeVars.insert(Var->id().name());
+      Result.HasWithVars = true;
+      // An argument would take precedence over 'with' in the expression.
+      for (const nixf::ExprWith *Scope : VLA.getWithScopes(*Var)) {
+        if (isInsideNode(*Scope, Root))
+          Result.IsExtractable = false;
+      }
     }
   }
 
-  /// \brief Check if a node is inside (or equal to) the root node.
-  static bool isInsideNode(const nixf::Node *N, const nixf::Node &Root) {
-    if (!N)
-      return false;
-    // Check if N's range is within Root's range
-    const auto &NRange = N->range();
-    const auto &RootRange = Root.range();
-    return NRange.lCur().offset() >= RootRange.lCur().offset() &&
-           NRange.rCur().offset() <= RootRange.rCur().offset();
+  // Names of arguments cannot be quoted.
+  for (const std::string &Name : Result.FreeVars) {
+    if (!isValidNixIdentifier(Name))
+      Result.IsExtractable = false;
   }
+  return Result;
+}
 
-public:
-  FreeVariableCollector(const nixf::VariableLookupAnalysis &VLA,
-                        const nixf::Node &Root)
-      : VLA(VLA), Root(Root) {}
+/// \brief Check if other bindings add attributes to the set.
+///
+/// e.g. the value of `a` in { a = { b = 1; }; a.c = 2; }
+bool isExtended(const nixf::ExprAttrs &Attrs,
+                const nixf::ParentMapAnalysis &PM) {
+  std::vector<std::string> Path;
+  const nixf::Node *Cur = &Attrs;
+  while (const nixf::Node *Parent = PM.query(*Cur)) {
+    if (Parent->kind() != nixf::Node::NK_Binding)
+      return false;
+    const auto &Binding = static_cast<const nixf::Binding &>(*Parent);
+    std::vector<std::string> Names;
+    for (const auto &Name : Binding.path().names()) {
+      if (!Name->isStatic())
+        return false;
+      Names.emplace_back(Name->staticName());
+    }
+    Path.insert(Path.begin(), Names.begin(), Names.end());
+
+    const nixf::Node *BindsNode = PM.query(Binding);
+    if (!BindsNode || BindsNode->kind() != nixf::Node::NK_Binds)
+      return false;
+    for (const auto &Sibling :
+         static_cast<const nixf::Binds *>(BindsNode)->bindings()) {
+      if (Sibling.get() == &Binding ||
+          Sibling->kind() != nixf::Node::NK_Binding)
+        continue;
+      const auto &Other =
+          static_cast<const nixf::Binding &>(*Sibling).path().names();
+      if (std::equal(Path.begin(), Path.end(), Other.begin(),
+                     Other.begin() + std::min(Path.size(), Other.size()),
+                     [](const std::string &Name, const auto &OtherName) {
+                       return OtherName->isStatic() &&
+                              OtherName->staticName() == Name;
+                     }))
+        return true;
+    }
 
-  FreeVariableResult collect() {
-    FreeVars.clear();
-    HasWithVars = false;
-    collect(Root);
-    return {FreeVars, HasWithVars};
+    Cur = PM.query(*BindsNode);
+    if (!Cur)
+      return false;
   }
-};
+  return false;
+}
 
 /// \brief Generate a filename from the expression context.
 ///
@@ -110,7 +153,8 @@ std::string generateFilename(const nixf::Node &N,
   if (BindingNode) {
     const auto &Binding = static_cast<const nixf::Binding &>(*BindingNode);
     const auto &Names = Binding.path().names();
-    if (!Names.empty() && Names.back()->isStatic()) {
+    if (!Names.empty() && Names.back()->isStatic() &&
+        !Names.back()->staticName().empty()) {
       std::string Name = Names.back()->staticName();
       // Sanitize: replace invalid chars with underscore
       for (char &C : Name) {
@@ -189,16 +233,6 @@ std::string generateImportStatement(const std::string &Filename,
   return Import;
 }
 
-/// \brief Strip the "file://" scheme prefix from a URI if present.
-///
-/// LSP URIs typically have the form "file:///path/to/file", but
-/// URIForFile::canonicalize expects a filesystem path without the scheme.
-std::string stripFileScheme(llvm::StringRef URI) {
-  if (URI.starts_with("file://"))
-    return URI.drop_front(7).str();
-  return URI.str();
-}
-
 /// \brief Generate a unique filename by appending a numeric suffix if needed.
 ///
 /// If the file already exists, tries filename-1.nix, filename-2.nix, etc.
@@ -281,6 +315,21 @@ bool isExtractable(const nixf::Node &N) {
   }
 }
 
+/// \brief Check if a function call cannot replace the node without parentheses.
+bool needsParentheses(const nixf::Node &N, const nixf::ParentMapAnalysis &PM) {
+  const nixf::Node *Parent = PM.query(N);
+  if (!Parent)
+    return false;
+  switch (Parent->kind()) {
+  case nixf::Node::NK_ExprList:
+  case nixf::Node::NK_ExprCall:
+  case nixf::Node::NK_ExprSelect:
+    return true;
+  default:
+    return false;
+  }
+}
+
 /// \brief Check if the given node is an expression node we can extract.
 ///
 /// Only returns the node if it's directly extractable - does not walk up
@@ -291,8 +340,16 @@ const nixf::Node *findExtractableExpr(const nixf::Node &N,
   // Only offer extraction if this specific node is extractable.
   // Don't walk up - this prevents offering extraction for parent expressions
   // when the user has their cursor on a child (like an attribute name).
-  if (isExtractable(N))
+  if (isExtractable(N)) {
+    // The bindings of "let" are not an expression.
+    const nixf::Node *Parent = PM.query(N);
+    if (Parent && Parent->kind() == nixf::Node::NK_ExprLet &&
+        static_cast<const nixf::ExprLet *>(Parent)->attrs() == &N)
+      return nullptr;
+    if (Parent && Parent->kind() == nixf::Node::NK_ExprLegacyLet)
+      return nullptr;
     return &N;
+  }
 
   // If the immediate node isn't extractable, check if we're inside a binding
   // value - allow extraction of the binding's value expression.
@@ -334,16 +391,27 @@ void addExtractToFileAction(const nixf::Node &N,
   if (ExprSrc.empty())
     return;
 
+  // Attributes may also be defined by other bindings
+  if (ExprNode->kind() == nixf::Node::NK_ExprAttrs &&
+      isExtended(static_cast<const nixf::ExprAttrs &>(*ExprNode), PM))
+    return;
+
   // Collect free variables
-  FreeVariableCollector Collector(VLA, *ExprNode);
-  FreeVariableResult FreeVarResult = Collector.collect();
+  FreeVariableResult FreeVarResult = collectFreeVariables(VLA, *ExprNode);
+  if (!FreeVarResult.IsExtractable)
+    return;
   const std::set<std::string> &FreeVars = FreeVarResult.FreeVars;
 
   // Generate filename from context
   std::string BaseFilename = generateFilename(*ExprNode, PM);
 
   // Build the directory path for the new file (same directory as source)
-  std::string SourceFilePath = stripFileScheme(FileURI);
+  llvm::Expected<std::string> FilePath = lspserver::URI::resolve(FileURI);
+  if (!FilePath) {
+    llvm::consumeError(FilePath.takeError());
+    return;
+  }
+  const std::string &SourceFilePath = *FilePath;
   llvm::SmallString<256> Directory(SourceFilePath);
   llvm::sys::path::remove_filename(Directory);
 
@@ -355,6 +423,16 @@ void addExtractToFileAction(const nixf::Node &N,
 
   // Generate the import statement
   std::string ImportStmt = generateImportStatement(Filename, FreeVars);
+  if (needsParentheses(*ExprNode, PM))
+    ImportStmt = "(" + ImportStmt + ")";
+
+  // Keep it apart from the tokens around.
+  size_t Begin = ExprNode->lCur().offset();
+  size_t End = ExprNode->rCur().offset();
+  if (Begin > 0 && !llvm::StringRef(" \t\r\n([{;").contains(Src[Begin - 1]))
+    ImportStmt.insert(0, " ");
+  if (End < Src.size() && !llvm::StringRef(" \t\r\n)]};,").contains(Src[End]))
+    ImportStmt += ' ';
 
   // Build the full file path
   llvm::SmallString<256> NewFilePath(Directory);
@@ -378,7 +456,6 @@ void addExtractToFileAction(const nixf::Node &N,
   // Edit for new file: insert content at beginning
   lspserver::TextDocumentEdit NewFileEdit;
   NewFileEdit.textDocument.uri = CreateOp.uri;
-  NewFileEdit.textDocument.version = 0;
   NewFileEdit.edits.push_back(lspserver::TextEdit{
       .range = lspserver::Range{{0, 0}, {0, 0}},
       .newText = NewFileContent,
-- 
2.43.0


From 1d2566212316ffcf109e0bd2a75ebf6fd2f01c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 70/86] fix: add a formal where the formals end with a comma

---
 .../Controller/CodeActions/AddToFormals.cpp   | 60 ++++++++-----------
 1 file changed, 26 insertions(+), 34 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/AddToFormals.cpp b/nixd/lib/Controller/CodeActions/AddToFormals.cpp
index 62eb297..d2b7d3b 100644
--- a/nixd/lib/Controller/CodeActions/AddToFormals.cpp
+++ b/nixd/lib/Controller/CodeActions/AddToFormals.cpp
@@ -74,42 +74,34 @@ void addToFormalsAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
     InsertRange = lspserver::Range{InsertPos, InsertPos};
     NewText = " " + quoteNixAttrKey(VarName) + " ";
   } else {
-    // Check if the last member is an ellipsis
-    const nixf::Formal *LastMember = Members.back().get();
-    bool HasEllipsis = LastMember && LastMember->isEllipsis();
-
-    if (HasEllipsis) {
-      if (Members.size() == 1) {
-        // Case 3: Ellipsis only `{ ... }:`
-        // Insert `varName, ` before the ellipsis
-        auto InsertPos = toLSPPosition(Src, LastMember->lCur());
-        InsertRange = lspserver::Range{InsertPos, InsertPos};
-        NewText = quoteNixAttrKey(VarName) + ", ";
-      } else {
-        // Case 4: With ellipsis `{ a, ... }:`
-        // Insert `, varName` after the last non-ellipsis formal
-        // Find the last non-ellipsis formal
-        const nixf::Formal *LastNonEllipsis = nullptr;
-        for (auto It = Members.rbegin(); It != Members.rend(); ++It) {
-          if ((*It) && !(*It)->isEllipsis()) {
-            LastNonEllipsis = (*It).get();
-            break;
-          }
-        }
-
-        if (!LastNonEllipsis)
-          return;
-
-        auto InsertPos = toLSPPosition(Src, LastNonEllipsis->rCur());
-        InsertRange = lspserver::Range{InsertPos, InsertPos};
-        NewText = ", " + quoteNixAttrKey(VarName);
-      }
-    } else {
-      // Case 2: Normal `{ a }:` without ellipsis
-      // Insert `, varName` after the last formal
-      auto InsertPos = toLSPPosition(Src, LastMember->rCur());
+    // Find the last formal with a name. There may be an ellipsis, or a trailing
+    // comma after it.
+    const nixf::Formal *LastNamed = nullptr;
+    for (const auto &Member : Members) {
+      if (Member && Member->id())
+        LastNamed = Member.get();
+    }
+
+    if (LastNamed) {
+      // Case 2: Normal `{ a }:`, and
+      // Case 4: With ellipsis `{ a, ... }:`
+      // Insert `, varName` after the last formal that is not an ellipsis
+      auto InsertPos = toLSPPosition(Src, LastNamed->rCur());
       InsertRange = lspserver::Range{InsertPos, InsertPos};
       NewText = ", " + quoteNixAttrKey(VarName);
+      // A comma may continue a URI.
+      if (LastNamed->defaultExpr() &&
+          LastNamed->src(Src).find(':') != std::string_view::npos)
+        NewText.insert(0, " ");
+    } else {
+      // Case 3: Ellipsis only `{ ... }:`
+      // Insert `varName, ` before the ellipsis
+      const nixf::Formal *Ellipsis = Members.front().get();
+      if (!Ellipsis || !Ellipsis->isEllipsis())
+        return;
+      auto InsertPos = toLSPPosition(Src, Ellipsis->lCur());
+      InsertRange = lspserver::Range{InsertPos, InsertPos};
+      NewText = quoteNixAttrKey(VarName) + ", ";
     }
   }
 
-- 
2.43.0


From 951a240cc0da56bd8b7816ae6d588171bb17be64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 71/86] fix: links to paths in interpolations of a path

---
 nixd/lib/Controller/DocumentLink.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/DocumentLink.cpp b/nixd/lib/Controller/DocumentLink.cpp
index afd80df..de6791e 100644
--- a/nixd/lib/Controller/DocumentLink.cpp
+++ b/nixd/lib/Controller/DocumentLink.cpp
@@ -45,8 +45,10 @@ void dfs(const Node *N, const std::string &BasePath,
             DocumentLink{.range = toLSPRange(Src, N->range()),
                          .target = URIForFile::canonicalize(*Link, *Link)});
       }
+      return;
     }
-    return;
+    // Interpolated, there may be paths in the interpolations.
+    break;
   }
   default:
     break;
-- 
2.43.0


From 0b44e1b77926efe358c2f0a8012e8f7a04d6fc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:18 +0000
Subject: [PATCH 72/86] fix: apply configurations in the order they were asked
 for

---
 nixd/include/nixd/Controller/Controller.h | 11 +++++++++--
 nixd/lib/Controller/Configuration.cpp     | 12 ++++++++----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/nixd/include/nixd/Controller/Controller.h b/nixd/include/nixd/Controller/Controller.h
index 99d68a9..a7f3b5e 100644
--- a/nixd/include/nixd/Controller/Controller.h
+++ b/nixd/include/nixd/Controller/Controller.h
@@ -12,6 +12,7 @@
 
 #include <boost/asio/thread_pool.hpp>
 
+#include <atomic>
 #include <set>
 
 namespace nixd {
@@ -73,7 +74,11 @@ class Controller : public lspserver::LSPServer {
   lspserver::ClientCapabilities ClientCaps;
 
   std::mutex ConfigLock;
-  Configuration Config; // GUARDED_BY(ConfigLock)
+  Configuration Config;        // GUARDED_BY(ConfigLock)
+  unsigned ConfigSequence = 0; // GUARDED_BY(ConfigLock)
+
+  /// How many times the configuration was fetched.
+  std::atomic<unsigned> ConfigFetches = 0;
 
   llvm::unique_function<void(const lspserver::ConfigurationParams &,
                              lspserver::Callback<llvm::json::Value>)>
@@ -85,7 +90,9 @@ class Controller : public lspserver::LSPServer {
   /// \brief Update the configuration, do necessary adjusting for updates.
   ///
   /// \example If asked to change eval settings, send eval requests to workers.
-  void updateConfig(Configuration NewConfig);
+  /// \param Sequence Configurations with a lower number than the current one
+  /// are outdated, and ignored.
+  void updateConfig(Configuration NewConfig, unsigned Sequence);
 
   /// \brief Get configuration from LSP client. Update the config.
   void fetchConfig();
diff --git a/nixd/lib/Controller/Configuration.cpp b/nixd/lib/Controller/Configuration.cpp
index 67f1176..ca22346 100644
--- a/nixd/lib/Controller/Configuration.cpp
+++ b/nixd/lib/Controller/Configuration.cpp
@@ -53,8 +53,11 @@ void Controller::onDidChangeConfiguration(
   fetchConfig();
 }
 
-void Controller::updateConfig(Configuration NewConfig) {
+void Controller::updateConfig(Configuration NewConfig, unsigned Sequence) {
   std::lock_guard G(ConfigLock);
+  if (Sequence < ConfigSequence)
+    return;
+  ConfigSequence = Sequence;
   Config = std::move(NewConfig);
 
   if (!Config.nixpkgs.expr.empty()) {
@@ -94,7 +97,8 @@ void Controller::updateConfig(Configuration NewConfig) {
 }
 
 void Controller::fetchConfig() {
-  auto Action = [this](llvm::Expected<llvm::json::Value> Resp) mutable {
+  auto Action = [this, Sequence = ++ConfigFetches](
+                    llvm::Expected<llvm::json::Value> Resp) mutable {
     if (!Resp) {
       elog("workspace/configuration: {0}", Resp.takeError());
       return;
@@ -113,7 +117,7 @@ void Controller::fetchConfig() {
     const Value &FirstConfig = Resp->getAsArray()->front();
 
     // Run this job in the thread pool. Don't block input thread.
-    auto ConfigAction = [this, FirstConfig]() mutable {
+    auto ConfigAction = [this, FirstConfig, Sequence]() mutable {
       // Parse the config
       Configuration NewConfig;
       llvm::json::Path::Root P;
@@ -123,7 +127,7 @@ void Controller::fetchConfig() {
       }
 
       // OK, update the config
-      updateConfig(std::move(NewConfig));
+      updateConfig(std::move(NewConfig), Sequence);
     };
 
     boost::asio::post(Pool, std::move(ConfigAction));
-- 
2.43.0


From 230a4225901b2ec3e303423e4409a38e9033e838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:18 +0000
Subject: [PATCH 73/86] fix: honour all of the initial configuration

---
 nixd/lib/Controller/LifeTime.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nixd/lib/Controller/LifeTime.cpp b/nixd/lib/Controller/LifeTime.cpp
index 3377ebc..cc903d7 100644
--- a/nixd/lib/Controller/LifeTime.cpp
+++ b/nixd/lib/Controller/LifeTime.cpp
@@ -189,9 +189,7 @@ void Controller::
                            "nixos options");
   }
   try {
-    Configuration CLIConfig = parseCLIConfig();
-    std::lock_guard _(ConfigLock);
-    Config = std::move(CLIConfig);
+    updateConfig(parseCLIConfig(), /*Sequence=*/0);
   } catch (LLVMErrorException &Err) {
     lspserver::elog("parse CLI config error: {0}, {1}", Err.what(),
                     Err.takeError());
-- 
2.43.0


From 710d533b304546009b255109930ec3d5b8b1a5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:56 +0000
Subject: [PATCH 74/86] fix: do not crash on formatters that do not write UTF-8

---
 nixd/lib/Controller/Format.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nixd/lib/Controller/Format.cpp b/nixd/lib/Controller/Format.cpp
index fc0122e..907d675 100644
--- a/nixd/lib/Controller/Format.cpp
+++ b/nixd/lib/Controller/Format.cpp
@@ -162,6 +162,12 @@ void Controller::onFormat(const DocumentFormattingParams &Params,
       return;
     }
 
+    if (!llvm::json::isUTF8(Response)) {
+      Reply(error("formatting {0} command wrote invalid UTF-8",
+                  FormatCommand[0]));
+      return;
+    }
+
     if (Response == Code) {
       Reply(std::vector<TextEdit>{});
       return;
-- 
2.43.0


From 211d5da93325b91ab3a0a176674f876041ab89f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:17 +0000
Subject: [PATCH 75/86] fix: do not crash on definitions of variables that were
 not looked up

---
 nixd/lib/Controller/Definition.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index 41d58a8..db29483 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -303,7 +303,8 @@ Locations defineSelect(const ExprSelect &Sel, const VariableLookupAnalysis &VLA,
   // Maybe more data-flow analysis will be added though.
   try {
     return defineNixpkgsSelector(mkSelector(Sel, VLA, PM), NixpkgsClient);
-  } catch (IdiomSelectorException &E) {
+  } catch (std::exception &E) {
+    // Not an idiom, or the variable is not known to the lookup analysis.
     elog("defintion/idiom/selector: {0}", E.what());
   }
   return {};
-- 
2.43.0


From e762f8eecb6560e55637f1310713e8a8cba19360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:17 +0000
Subject: [PATCH 76/86] fix: do not crash on completing a lone attribute name
 "config"

---
 nixd/lib/Controller/AST.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/AST.cpp b/nixd/lib/Controller/AST.cpp
index 246ad48..57c9c86 100644
--- a/nixd/lib/Controller/AST.cpp
+++ b/nixd/lib/Controller/AST.cpp
@@ -338,7 +338,8 @@ nixd::findAttrPathForOptions(const nixf::Node &N,
   if (R == FindAttrPathResult::OK) {
     // FIXME: Only do this in NixOS module files and in flakes only in module
     // functions passed to nixpkgs.lib.nixosSystem.
-    if (!Path.empty() && Path[0] == "config") {
+    // Keep the name if it is all there is, callers rely on some name.
+    if (Path.size() > 1 && Path[0] == "config") {
       Path.erase(Path.begin());
     }
   }
-- 
2.43.0


From 667a47c288e877319004037f30a6f5f02133c08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:40 +0000
Subject: [PATCH 77/86] fix: quote names that are no identifiers in completions

---
 nixd/lib/Controller/Completion.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index 8313b7f..0bd8902 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -5,6 +5,7 @@
 
 #include "AST.h"
 #include "CheckReturn.h"
+#include "CodeActions/Utils.h"
 #include "Convert.h"
 
 #include "lspserver/Protocol.h"
@@ -141,8 +142,9 @@ public:
   }
 
   /// \brief Ask nixpkgs provider, give us a list of names. (thunks)
+  /// \param AsVariable the names are variables, that cannot be quoted.
   void completePackages(const lspserver::Range EditRange,
-                        const AttrPathCompleteParams &Params,
+                        const AttrPathCompleteParams &Params, bool AsVariable,
                         std::vector<CompletionItem> &Items) {
     std::binary_semaphore Ready(0);
     std::vector<std::string> Names;
@@ -161,12 +163,17 @@ public:
     Ready.acquire();
     // Now we have "Names", use these to fill "Items".
     for (const auto &Name : Names) {
+      if (AsVariable && !isValidNixIdentifier(Name))
+        continue;
       if (Name.starts_with(Params.Prefix)) {
         addItem(Items, CompletionItem{
                            .label = Name,
                            .kind = CompletionItemKind::Field,
-                           .textEdit = lspserver::TextEdit{.range = EditRange,
-                                                           .newText = Name},
+                           .textEdit =
+                               lspserver::TextEdit{
+                                   .range = EditRange,
+                                   .newText = quoteNixAttrKey(Name),
+                               },
                            .data = llvm::formatv("{0}", toJSON(Params)),
                        });
       }
@@ -202,13 +209,14 @@ class OptionCompletionProvider {
 
   void fillInsertText(CompletionItem &Item, const std::string &Name,
                       const std::string &Value) const {
+    const std::string Key = quoteNixAttrKey(Name);
     if (!ClientSupportSnippet) {
       Item.insertTextFormat = InsertTextFormat::PlainText;
-      Item.insertText = Name + " = " + Value + ";";
+      Item.insertText = Key + " = " + Value + ";";
       return;
     }
     Item.insertTextFormat = InsertTextFormat::Snippet;
-    Item.insertText = Name + " = " +
+    Item.insertText = escapeCharacters({'\\', '$', '}'}, Key) + " = " +
                       "${1:" + escapeCharacters({'\\', '$', '}'}, Value) + "}" +
                       ";";
   }
@@ -252,11 +260,13 @@ public:
     };
     for (const nixd::OptionField &Field : Names) {
       if (!Field.Description) {
+        const std::string Key = quoteNixAttrKey(Field.Name);
         addItem(Items, CompletionItem{
                            .label = Field.Name,
                            .kind = OptionAttrKind,
                            .detail = ModuleOrigin,
-                           .textEdit = MkTextEdit(Field.Name),
+                           .insertText = Key == Field.Name ? "" : Key,
+                           .textEdit = MkTextEdit(Key),
                        });
         continue;
       }
@@ -405,7 +415,8 @@ void completeVarName(const lspserver::Range EditRange,
     // Invoke nixpkgs provider to get the completion list.
     NixpkgsCompletionProvider NCP(*Client);
     // Variable names are always incomplete.
-    NCP.completePackages(EditRange, mkParams(Sel, /*IsComplete=*/false), List);
+    NCP.completePackages(EditRange, mkParams(Sel, /*IsComplete=*/false),
+                         /*AsVariable=*/true, List);
   } catch (ExceedSizeError &) {
     // Let "onCompletion" catch this exception to set "inComplete" field.
     throw;
@@ -445,7 +456,8 @@ void completeSelect(const lspserver::Range EditRange,
   try {
     Selector Sel =
         idioms::mkSelector(Select, idioms::mkVarSelector(Var, VLA, PM));
-    NCP.completePackages(EditRange, mkParams(Sel, IsComplete), List);
+    NCP.completePackages(EditRange, mkParams(Sel, IsComplete),
+                         /*AsVariable=*/false, List);
   } catch (ExceedSizeError &) {
     // Let "onCompletion" catch this exception to set "inComplete" field.
     throw;
-- 
2.43.0


From ec5409bf75a7f515fdacb7a2693e7317e6b733e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:10 +0000
Subject: [PATCH 78/86] fix: complete names in the middle of a selection

---
 nixd/lib/Controller/Completion.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index 0bd8902..f2ccf14 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -428,12 +428,13 @@ void completeVarName(const lspserver::Range EditRange,
 }
 
 /// \brief Complete a "select" expression.
+/// \param N Name, or dot, to be completed. What follows it does not matter.
 /// \param IsComplete Whether or not the last element of the selector is
 /// effectively incomplete.
 /// e.g.
 ///      - incomplete: `lib.gen|`
 ///      - complete:   `lib.attrset.|`
-void completeSelect(const lspserver::Range EditRange,
+void completeSelect(const lspserver::Range EditRange, const Node &N,
                     const nixf::ExprSelect &Select, AttrSetClient &Client,
                     const nixf::VariableLookupAnalysis &VLA,
                     const nixf::ParentMapAnalysis &PM, bool IsComplete,
@@ -454,8 +455,16 @@ void completeSelect(const lspserver::Range EditRange,
   NixpkgsCompletionProvider NCP(Client);
 
   try {
-    Selector Sel =
-        idioms::mkSelector(Select, idioms::mkVarSelector(Var, VLA, PM));
+    Selector Sel = idioms::mkVarSelector(Var, VLA, PM);
+    if (Select.path()) {
+      for (const auto &Name : Select.path()->names()) {
+        if (Name->lCur().offset() >= N.rCur().offset())
+          break;
+        if (!Name->isStatic())
+          throw idioms::DynamicNameException();
+        Sel.emplace_back(Name->staticName());
+      }
+    }
     NCP.completePackages(EditRange, mkParams(Sel, IsComplete),
                          /*AsVariable=*/false, List);
   } catch (ExceedSizeError &) {
@@ -513,7 +522,7 @@ void Controller::onCompletion(const CompletionParams &Params,
           case Node::NK_ExprSelect: {
             const auto &Select = static_cast<const nixf::ExprSelect &>(UpExpr);
             if (AttrSetClient *Client = nixpkgsClient())
-              completeSelect(EditRange, Select, *Client, VLA, PM,
+              completeSelect(EditRange, N, Select, *Client, VLA, PM,
                              N.kind() == Node::NK_Dot, List.items);
             return List;
           }
-- 
2.43.0


From 92c21c8d5e710be2e2e9f938a74805e81b150e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 79/86] fix: look up variables from with in the innermost scope
 first

---
 libnixf/src/Sema/VariableLookup.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 3ad5ee3..fddd4fe 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -214,8 +214,10 @@ void VariableLookupAnalysis::lookupVar(const ExprVar &Var,
     // need to determine if converting a `with` to `let/inherit` is safe).
     std::vector<const ExprWith *> WithScopes;
     for (const auto *WithEnv : WithEnvs) {
-      Def = WithDefs.at(WithEnv->syntax());
-      Def->usedBy(Var);
+      const auto &WithDef = WithDefs.at(WithEnv->syntax());
+      WithDef->usedBy(Var);
+      if (!Def) // The innermost scope is looked up first.
+        Def = WithDef;
       WithScopes.push_back(static_cast<const ExprWith *>(WithEnv->syntax()));
     }
     VarWithScopes.insert({&Var, std::move(WithScopes)});
-- 
2.43.0


From a43a6e525c789a8441e23b7d9df0913d77eae4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:13 +0000
Subject: [PATCH 80/86] fix: do not wait for the rest of a message when nobody
 needs it any more

---
 nixd/lspserver/src/Connection.cpp | 81 +++++++++++++++++--------------
 1 file changed, 45 insertions(+), 36 deletions(-)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index 4c7bb44..8a0b3d8 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -163,51 +163,33 @@ bool InboundPort::dispatch(llvm::json::Value Message, MessageHandler &Handler) {
   return Handler.onNotify(*Method, std::move(Params));
 }
 
-bool readLine(int fd, const std::atomic<bool> &Close,
-              llvm::SmallString<128> &Line) {
-  Line.clear();
+namespace {
 
-  std::vector<pollfd> FDs;
-  FDs.emplace_back(pollfd{
+/// \brief Wait until there is something to read.
+/// \returns false if there won't be, or nobody waits for it any more.
+bool waitInput(int fd, const std::atomic<bool> &Close) {
+  pollfd FD = {
       fd,
       POLLIN | POLLPRI,
       0,
-  });
+  };
   for (;;) {
-    char Ch;
-    // FIXME: inefficient
-    int Poll = poll(FDs.data(), FDs.size(), 1000);
-    if (Poll < 0) {
-      if (errno == EINTR)
-        continue;
+    int Poll = poll(&FD, 1, 1000);
+    if (Poll < 0 && errno != EINTR)
       return false;
-    }
     if (Close)
       return false;
-
-    // POLLHUB: hang up from the writer side
-    // POLLNVAL: invalid request (fd not open)
-    //
-    // There may be pending messages after the writer hung up, read them first.
-    if (!(FDs[0].revents & POLLIN) &&
-        (FDs[0].revents & (POLLHUP | POLLERR | POLLNVAL))) {
-      return false;
-    }
-
-    if (FDs[0].revents & POLLIN) {
-      ssize_t BytesRead = read(fd, &Ch, 1);
-      if (BytesRead == -1) {
-        if (errno != EINTR)
-          return false;
-      } else if (BytesRead == 0)
+    if (Poll > 0) {
+      // POLLHUB: hang up from the writer side
+      // POLLNVAL: invalid request (fd not open)
+      //
+      // There may be pending messages after the writer hung up, read them
+      // first.
+      if (FD.revents & POLLIN)
+        return true;
+      if (FD.revents & (POLLHUP | POLLERR | POLLNVAL))
         return false;
-      else {
-        if (Ch == '\n')
-          return true;
-        Line += Ch;
-      }
     }
-
     if (kill(ClientProcessID, 0) < 0) {
       // Parent died.
       return false;
@@ -215,6 +197,30 @@ bool readLine(int fd, const std::atomic<bool> &Close,
   }
 }
 
+} // namespace
+
+bool readLine(int fd, const std::atomic<bool> &Close,
+              llvm::SmallString<128> &Line) {
+  Line.clear();
+
+  while (waitInput(fd, Close)) {
+    char Ch;
+    // FIXME: inefficient
+    ssize_t BytesRead = read(fd, &Ch, 1);
+    if (BytesRead == -1) {
+      if (errno != EINTR)
+        return false;
+    } else if (BytesRead == 0)
+      return false;
+    else {
+      if (Ch == '\n')
+        return true;
+      Line += Ch;
+    }
+  }
+  return false;
+}
+
 llvm::Expected<llvm::json::Value>
 InboundPort::readStandardMessage(std::string &Buffer) {
   unsigned long long ContentLength = 0;
@@ -246,7 +252,10 @@ InboundPort::readStandardMessage(std::string &Buffer) {
   ssize_t Read = 0;
   for (size_t Pos = 0; Pos < ContentLength; Pos += Read) {
 
-    Read = read(In, Buffer.data() + Pos, ContentLength - Pos);
+    // Who sends it may hang.
+    Read = waitInput(In, Close)
+               ? read(In, Buffer.data() + Pos, ContentLength - Pos)
+               : 0;
 
     if (Read == -1 && errno == EINTR) {
       Read = 0;
-- 
2.43.0


From 10dbf1d84a185ba53df3cf634db04ace35da3615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:26 +0000
Subject: [PATCH 81/86] fix: answer with errors until an expression is
 evaluated

---
 nixd/lib/Eval/AttrSetProvider.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nixd/lib/Eval/AttrSetProvider.cpp b/nixd/lib/Eval/AttrSetProvider.cpp
index 42ca721..4c8d7e7 100644
--- a/nixd/lib/Eval/AttrSetProvider.cpp
+++ b/nixd/lib/Eval/AttrSetProvider.cpp
@@ -265,6 +265,8 @@ AttrSetProvider::AttrSetProvider(std::unique_ptr<InboundPort> In,
     : LSPServer(std::move(In), std::move(Out)),
       State(new nix::EvalState({}, nix::openStore(), nix::fetchSettings,
                                nix::evalSettings)) {
+  // Queries may come before an expression has been evaluated, successfully.
+  Nixpkgs.mkNull();
   Registry.addMethod(rpcMethod::EvalExpr, this, &AttrSetProvider::onEvalExpr);
   Registry.addMethod(rpcMethod::AttrPathInfo, this,
                      &AttrSetProvider::onAttrPathInfo);
-- 
2.43.0


From 54a8b44ef19876e2499cd1e5a6e9262be7995091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:26 +0000
Subject: [PATCH 82/86] fix: let clients know that there are more options

---
 nixd/lib/Eval/AttrSetProvider.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nixd/lib/Eval/AttrSetProvider.cpp b/nixd/lib/Eval/AttrSetProvider.cpp
index 4c8d7e7..9f3ddb8 100644
--- a/nixd/lib/Eval/AttrSetProvider.cpp
+++ b/nixd/lib/Eval/AttrSetProvider.cpp
@@ -408,7 +408,7 @@ void AttrSetProvider::onOptionComplete(
         }
         Response.emplace_back(std::move(NewField));
         // We set this a very limited number as to speedup
-        if (Response.size() >= MaxItems)
+        if (Response.size() > MaxItems)
           break;
       }
     }
-- 
2.43.0


From 1f672364f8d28ad36440acd58fdec7838786bb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:26 +0000
Subject: [PATCH 83/86] fix: keep options with submodules as they are when
 looking into them

---
 libnixt/include/nixt/Value.h      |  7 ++++++-
 libnixt/lib/Value.cpp             | 24 +++++++++++++++---------
 nixd/lib/Eval/AttrSetProvider.cpp |  3 ++-
 3 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/libnixt/include/nixt/Value.h b/libnixt/include/nixt/Value.h
index 4908692..1ae5c32 100644
--- a/libnixt/include/nixt/Value.h
+++ b/libnixt/include/nixt/Value.h
@@ -41,7 +41,12 @@ nix::Value &selectAttrPath(nix::EvalState &State, nix::Value &V,
                            std::vector<nix::Symbol>::const_iterator Begin,
                            std::vector<nix::Symbol>::const_iterator End);
 
-/// \brief Select the option declaration list, \p V,  dive into "submodules".
+/// \brief The options declared in \p V if it has a submodule type, otherwise
+/// \p V itself.
+nix::Value enterSubmodule(nix::EvalState &State, nix::Value &V);
+
+/// \brief Select the option declaration list, \p V,  dive into "submodules" on
+/// the way to the selected value.
 nix::Value selectOptions(nix::EvalState &State, nix::Value &V,
                          std::vector<nix::Symbol>::const_iterator Begin,
                          std::vector<nix::Symbol>::const_iterator End);
diff --git a/libnixt/lib/Value.cpp b/libnixt/lib/Value.cpp
index befab3a..371fa6b 100644
--- a/libnixt/lib/Value.cpp
+++ b/libnixt/lib/Value.cpp
@@ -156,25 +156,31 @@ nix::Value getSubOptions(nix::EvalState &State, nix::Value &Type) {
 
 } // namespace
 
+nix::Value nixt::enterSubmodule(nix::EvalState &State, nix::Value &V) {
+  if (nix::Value *SubType = tryGetSubmoduleType(State, V))
+    // Invoke getSubOptions on that type.
+    return getSubOptions(State, *SubType);
+  return V;
+}
+
 nix::Value nixt::selectOptions(nix::EvalState &State, nix::Value &V,
                                std::vector<nix::Symbol>::const_iterator Begin,
                                std::vector<nix::Symbol>::const_iterator End) {
-  // Always try to mangle the value if it is a submodule
-  if (nix::Value *SubType = tryGetSubmoduleType(State, V))
-    // Invoke getSubOptions on that type, and reset the value to it.
-    V = getSubOptions(State, *SubType);
-
   if (Begin == End)
     return V;
 
-  if (isOption(State, V)) {
-    // If currently "V" is an option, it can still be submodules.
+  // Always try to mangle the value if it is a submodule. "V" itself remains as
+  // it is, it is the option that has this submodule as its type.
+  nix::Value Scope = enterSubmodule(State, V);
+
+  if (isOption(State, Scope)) {
+    // If currently "Scope" is an option, it can still be submodules.
     //
     // e.g. users.users <-- the main option stops at here.
     //      networking.interfaces
     //
     // Take care of such case.
-    nix::Value &Type = selectAttr(State, V, nix::EvalState::s.type);
+    nix::Value &Type = selectAttr(State, Scope, nix::EvalState::s.type);
     if (checkField(State, Type, "name", "attrsOf")) {
       nix::Value NestedTypes =
           selectAttr(State, Type, State.symbols.create("nestedTypes"));
@@ -189,6 +195,6 @@ nix::Value nixt::selectOptions(nix::EvalState &State, nix::Value &V,
   }
 
   // Otherwise, simply select it.
-  nix::Value &Nested = selectAttr(State, V, *Begin);
+  nix::Value &Nested = selectAttr(State, Scope, *Begin);
   return selectOptions(State, Nested, ++Begin, End);
 }
diff --git a/nixd/lib/Eval/AttrSetProvider.cpp b/nixd/lib/Eval/AttrSetProvider.cpp
index 9f3ddb8..767deb9 100644
--- a/nixd/lib/Eval/AttrSetProvider.cpp
+++ b/nixd/lib/Eval/AttrSetProvider.cpp
@@ -371,8 +371,9 @@ void AttrSetProvider::onOptionComplete(
     const AttrPathCompleteParams &Params,
     lspserver::Callback<OptionCompleteResponse> Reply) {
   try {
-    nix::Value Scope = nixt::selectOptions(
+    nix::Value Selected = nixt::selectOptions(
         state(), Nixpkgs, nixt::toSymbols(state().symbols, Params.Scope));
+    nix::Value Scope = nixt::enterSubmodule(state(), Selected);
 
     state().forceValue(Scope, nix::noPos);
 
-- 
2.43.0


From 047d747fefcc975cca3865bae7e44067640f3130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:01 +0000
Subject: [PATCH 84/86] fix: leave out declarations of options that are in no
 file

---
 nixd/lib/Eval/AttrSetProvider.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Eval/AttrSetProvider.cpp b/nixd/lib/Eval/AttrSetProvider.cpp
index 767deb9..941c1dd 100644
--- a/nixd/lib/Eval/AttrSetProvider.cpp
+++ b/nixd/lib/Eval/AttrSetProvider.cpp
@@ -3,6 +3,8 @@
 
 #include "lspserver/Protocol.h"
 
+#include <llvm/Support/Path.h>
+
 #include <nix/cmd/common-eval-args.hh>
 #include <nix/expr/attr-path.hh>
 #include <nix/expr/nixexpr.hh>
@@ -83,7 +85,9 @@ void fillUnsafeGetAttrPosLocation(nix::EvalState &State, nix::Value &V,
   State.forceValue(Line, nix::noPos);
   State.forceValue(Column, nix::noPos);
 
-  if (File.type() == nix::ValueType::nString)
+  // Other names, e.g. "<unknown-file>", are no place to go to.
+  if (File.type() == nix::ValueType::nString &&
+      llvm::sys::path::is_absolute(File.c_str()))
     Loc.uri = URIForFile::canonicalize(File.c_str(), File.c_str());
 
   if (Line.type() == nix::ValueType::nInt &&
@@ -105,7 +109,8 @@ void fillOptionDeclarationPositions(nix::EvalState &State, nix::Value &V,
     // Each item should have "column", "line", "file" fields.
     lspserver::Location Loc;
     fillUnsafeGetAttrPosLocation(State, *Item, Loc);
-    R.Declarations.emplace_back(std::move(Loc));
+    if (!Loc.uri.file().empty())
+      R.Declarations.emplace_back(std::move(Loc));
   }
 }
 
-- 
2.43.0


From 532a78e9ad4639a8cd980111dd3f43b458668171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:36 +0000
Subject: [PATCH 85/86] fix: send no bytes in JSON that are not UTF-8

---
 nixd/lib/Eval/AttrSetProvider.cpp | 41 ++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/nixd/lib/Eval/AttrSetProvider.cpp b/nixd/lib/Eval/AttrSetProvider.cpp
index 941c1dd..6fb4fd4 100644
--- a/nixd/lib/Eval/AttrSetProvider.cpp
+++ b/nixd/lib/Eval/AttrSetProvider.cpp
@@ -18,6 +18,13 @@ namespace {
 
 constexpr int MaxItems = 30;
 
+/// Strings in Nix may be any bytes, but those in JSON are UTF-8.
+std::string toUTF8(std::string_view S) {
+  if (llvm::json::isUTF8(S))
+    return std::string(S);
+  return llvm::json::fixUTF8(S);
+}
+
 void fillString(nix::EvalState &State, nix::Value &V,
                 const std::vector<std::string_view> &AttrPath,
                 std::optional<std::string> &Field) {
@@ -25,7 +32,7 @@ void fillString(nix::EvalState &State, nix::Value &V,
     nix::Value &Select = nixt::selectStringViews(State, V, AttrPath);
     State.forceValue(Select, nix::noPos);
     if (Select.type() == nix::ValueType::nString)
-      Field = Select.string_view();
+      Field = toUTF8(Select.string_view());
   } catch (std::exception &E) {
     Field = std::nullopt;
   }
@@ -149,7 +156,7 @@ std::optional<std::string> renderOptionValue(nix::EvalState &State,
     // which carries the source text.
     if (nixt::checkField(State, V, "_type", "literalExpression")) {
       if (auto Text = nixt::getFieldString(State, V, "text"))
-        return std::string(*Text);
+        return toUTF8(*Text);
       return std::nullopt;
     }
 
@@ -169,7 +176,7 @@ std::optional<std::string> renderOptionValue(nix::EvalState &State,
 
     std::ostringstream OS;
     V.print(State, OS);
-    return OS.str();
+    return toUTF8(OS.str());
   } catch (std::exception &) {
     return std::nullopt;
   }
@@ -222,7 +229,7 @@ std::vector<std::string> completeNames(nix::Value &Scope,
     const std::string_view Name = State.symbols[Attr.name];
     if (Name.starts_with(Prefix)) {
       ++Num;
-      Names.emplace_back(Name);
+      Names.emplace_back(toUTF8(Name));
       // We set this a very limited number as to speedup
       if (Num > MaxItems)
         break;
@@ -237,7 +244,7 @@ std::optional<ValueDescription> describeValue(nix::EvalState &State,
     const auto *PrimOp = V.primOp();
     assert(PrimOp);
     return ValueDescription{
-        .Doc = PrimOp->doc.value_or(""),
+        .Doc = toUTF8(PrimOp->doc.value_or("")),
         .Arity = static_cast<int>(PrimOp->arity),
         .Args = PrimOp->args,
     };
@@ -254,7 +261,7 @@ std::optional<ValueDescription> describeValue(nix::EvalState &State,
       return std::nullopt;
 
     return ValueDescription{
-        .Doc = DocComment.getInnerText(State.positions),
+        .Doc = toUTF8(DocComment.getInnerText(State.positions)),
         .Arity = 0,
         .Args = {},
     };
@@ -292,10 +299,10 @@ void AttrSetProvider::onEvalExpr(
     Reply(std::nullopt);
     return;
   } catch (const nix::BaseError &Err) {
-    Reply(error(Err.info().msg.str()));
+    Reply(error(toUTF8(Err.info().msg.str())));
     return;
   } catch (const std::exception &Err) {
-    Reply(error(Err.what()));
+    Reply(error(toUTF8(Err.what())));
     return;
   }
 }
@@ -317,9 +324,9 @@ void AttrSetProvider::onAttrPathInfo(
           .ValueDesc = describeValue(state(), V),
       };
     } catch (const nix::BaseError &Err) {
-      return error(Err.info().msg.str());
+      return error(toUTF8(Err.info().msg.str()));
     } catch (const std::exception &Err) {
-      return error(Err.what());
+      return error(toUTF8(Err.what()));
     }
   }());
 }
@@ -339,9 +346,9 @@ void AttrSetProvider::onAttrPathComplete(
 
     return Reply(completeNames(Scope, state(), Params.Prefix));
   } catch (const nix::BaseError &Err) {
-    return Reply(error(Err.info().msg.str()));
+    return Reply(error(toUTF8(Err.info().msg.str())));
   } catch (const std::exception &Err) {
-    return Reply(error(Err.what()));
+    return Reply(error(toUTF8(Err.what())));
   }
 }
 
@@ -364,10 +371,10 @@ void AttrSetProvider::onOptionInfo(
     Reply(std::move(R));
     return;
   } catch (const nix::BaseError &Err) {
-    Reply(error(Err.info().msg.str()));
+    Reply(error(toUTF8(Err.info().msg.str())));
     return;
   } catch (const std::exception &Err) {
-    Reply(error(Err.what()));
+    Reply(error(toUTF8(Err.what())));
     return;
   }
 }
@@ -406,7 +413,7 @@ void AttrSetProvider::onOptionComplete(
         // Add a new "OptionField", see it's type.
         assert(Attr.value);
         OptionField NewField;
-        NewField.Name = Name;
+        NewField.Name = toUTF8(Name);
         if (nixt::isOption(state(), *Attr.value)) {
           OptionDescription Desc;
           fillOptionDescription(state(), *Attr.value, Desc);
@@ -421,10 +428,10 @@ void AttrSetProvider::onOptionComplete(
     Reply(std::move(Response));
     return;
   } catch (const nix::BaseError &Err) {
-    Reply(error(Err.info().msg.str()));
+    Reply(error(toUTF8(Err.info().msg.str())));
     return;
   } catch (const std::exception &Err) {
-    Reply(error(Err.what()));
+    Reply(error(toUTF8(Err.what())));
     return;
   }
 }
-- 
2.43.0


From 5567ee7f32109e3c33cda11c32382e929bc95c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:23 +0000
Subject: [PATCH 86/86] fix: mark completions as incomplete if some of many
 names were skipped

---
 nixd/lib/Controller/Completion.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index f2ccf14..1e6d1d3 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -178,6 +178,9 @@ public:
                        });
       }
     }
+    // Some of the names may have been skipped, but the worker has even more.
+    if (Names.size() > MaxCompletionSize)
+      throw ExceedSizeError();
   }
 };
 
-- 
2.43.0

