From d8a6d4d30635704c5825c417cbd020168e8897c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 01/28] fix: keep reference validation enabled after including
 further files

---
 src/state.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 39a984e..0f97a3e 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -307,8 +307,12 @@ bool State::includeFile(const std::string& s, bool isSignature, bool isReference
     return true;
   }
   Assert (!isReference || !d_hasReference);
-  d_hasReference = isReference;
-  d_referenceNf = referenceNf;
+  if (isReference)
+  {
+    // note this is never reset, all files read hereafter refer to it
+    d_hasReference = true;
+    d_referenceNf = referenceNf;
+  }
   Filepath currentPath = d_inputFile;
   d_inputFile = inputPath;
   if (d_plugin!=nullptr)
-- 
2.43.0


From db413758130e5a0914b8124a13527a9b3be87a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 02/28] fix: check assume against the reference also in local
 assumption scopes

---
 src/cmd_parser.cpp | 5 +++--
 src/state.cpp      | 8 +++++---
 src/state.h        | 2 +-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index b0dc1ed..310d77d 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -113,11 +113,12 @@ bool CmdParser::parseNextCommand()
       std::string name = d_eparser.parseSymbol();
       // parse what is proven
       Expr proven = d_eparser.parseFormula();
-      d_state.notifyAssume(name, proven, (tok == Token::ASSUME_PUSH));
+      bool isPush = (tok == Token::ASSUME_PUSH);
+      d_state.notifyAssume(name, proven, isPush);
       // bind the assumption to (pf <proven>).
       Expr pt = d_state.mkProof(proven);
       d_eparser.bind(name, pt);
-      if (!d_state.addAssumption(proven))
+      if (!d_state.addAssumption(proven, isPush))
       {
         std::stringstream ss;
         ss << "The assumption " << name << " was not part of the referenced assertions";
diff --git a/src/state.cpp b/src/state.cpp
index 0f97a3e..1eed175 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -453,13 +453,15 @@ void State::markDeleted(ExprValue* e)
   d_inGarbageCollection = false;
 }
 
-bool State::addAssumption(const Expr& a)
+bool State::addAssumption(const Expr& a, bool isPush)
 {
   d_assumptions.push_back(a);
   if (d_hasReference)
   {
-    // only care if at assumption level zero
-    if (d_assumptionsSizeCtx.empty())
+    // Only assumptions introduced by assume-push are discharged by step-pop.
+    // All others must be part of the reference, even when they occur at a
+    // non-zero assumption level.
+    if (!isPush)
     {
       Expr aa = a;
       if (!d_referenceNf.isNull())
diff --git a/src/state.h b/src/state.h
index 7174e27..a3683df 100644
--- a/src/state.h
+++ b/src/state.h
@@ -74,7 +74,7 @@ class State
   /** include file, possibly as a reference */
   bool includeFile(const std::string& s, bool isSignature, bool isReference, const Expr& referenceNf);
   /** add assumption */
-  bool addAssumption(const Expr& a);
+  bool addAssumption(const Expr& a, bool isPush = false);
   /** add reference assert */
   void addReferenceAssert(const Expr& a);
   /** Set type rule for literal kind k to t */
-- 
2.43.0


From e0725bd256fef572061e1ae10a638a50f9a6e7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:27 +0000
Subject: [PATCH 03/28] fix: do not let push and pop interfere with local
 assumption scopes

---
 src/cmd_parser.cpp |  4 ++++
 src/state.cpp      | 21 +++++++++++++++++++--
 src/state.h        |  7 +++++++
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index 310d77d..65c9b2c 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -1014,6 +1014,10 @@ bool CmdParser::parseNextCommand()
         }
         else
         {
+          if (!d_state.canPopScope())
+          {
+            d_lex.parseError("No scope to pop");
+          }
           d_state.popScope();
         }
       }
diff --git a/src/state.cpp b/src/state.cpp
index 1eed175..d4577dd 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -201,6 +201,7 @@ void State::reset()
   d_symTable.clear();
   d_assumptions.clear();
   d_assumptionsSizeCtx.clear();
+  d_assumptionsScopeCtx.clear();
   d_decls.clear();
   d_declsSizeCtx.clear();
   if (d_plugin!=nullptr)
@@ -267,6 +268,8 @@ void State::pushAssumptionScope()
   pushScope();
   // remember assumption size
   d_assumptionsSizeCtx.push_back(d_assumptions.size());
+  // remember the scope we opened
+  d_assumptionsScopeCtx.push_back(d_declsSizeCtx.size());
 }
 
 void State::popAssumptionScope()
@@ -275,9 +278,23 @@ void State::popAssumptionScope()
   size_t lastSize = d_assumptionsSizeCtx.back();
   d_assumptionsSizeCtx.pop_back();
   d_assumptions.resize(lastSize);
-  // pop the parsing scope
-  popScope();
+  // pop the parsing scope, which closes also the scopes that were opened by
+  // push within this assumption scope
+  size_t scope = d_assumptionsScopeCtx.back();
+  d_assumptionsScopeCtx.pop_back();
+  while (d_declsSizeCtx.size() >= scope)
+  {
+    popScope();
+  }
+}
+
+bool State::canPopScope() const
+{
+  size_t scope =
+      d_assumptionsScopeCtx.empty() ? 0 : d_assumptionsScopeCtx.back();
+  return d_declsSizeCtx.size() > scope;
 }
+
 bool State::includeFile(const std::string& s, bool isSignature)
 {
   return includeFile(s, isSignature, false, d_null);
diff --git a/src/state.h b/src/state.h
index a3683df..4a112ab 100644
--- a/src/state.h
+++ b/src/state.h
@@ -65,6 +65,11 @@ class State
   void pushScope();
   /** Pop scope */
   void popScope();
+  /**
+   * Can we pop a scope? This is false if the most recent scope was not opened
+   * by pushScope alone, i.e. it is the one of an assumption scope.
+   */
+  bool canPopScope() const;
   /** Push assumption scope */
   void pushAssumptionScope();
   /** Pop assumption scope */
@@ -371,6 +376,8 @@ class State
   std::vector<Expr> d_assumptions;
   /** Context size */
   std::vector<size_t> d_assumptionsSizeCtx;
+  /** The size of d_declsSizeCtx after each current pushAssumptionScope */
+  std::vector<size_t> d_assumptionsScopeCtx;
   //--------------------- expression info
   /** Map from expressions to constructor info */
   std::map<const ExprValue*, AppInfo> d_appData;
-- 
2.43.0


From 1c0f2a795682abc6bad871e21d75236644438957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:27 +0000
Subject: [PATCH 04/28] fix: require three arguments for eo::extract

---
 src/type_checker.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 25de2f5..21e1872 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -188,6 +188,7 @@ bool TypeChecker::checkArity(Kind k, size_t nargs, std::ostream* out)
     case Kind::EVAL_DT_SELECTORS: ret = (nargs == 1); break;
     case Kind::EVAL_REQUIRES:
     case Kind::EVAL_IF_THEN_ELSE:
+    case Kind::EVAL_EXTRACT:
     case Kind::EVAL_CONS:
     case Kind::EVAL_LIST_FIND:
     case Kind::EVAL_LIST_ERASE:
@@ -197,9 +198,6 @@ bool TypeChecker::checkArity(Kind k, size_t nargs, std::ostream* out)
     case Kind::EVAL_LIST_MEQ:
     case Kind::EVAL_LIST_DIFF:
     case Kind::EVAL_LIST_INTER: ret = (nargs == 3); break;
-    case Kind::EVAL_EXTRACT:
-      ret = (nargs==3 || nargs==2);
-      break;
     default:
       if (isNaryLiteralOp(k))
       {
-- 
2.43.0


From 7b4c54bfe9290fb9a700fbc6293f371698a3d8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:27 +0000
Subject: [PATCH 05/28] fix: do not extract beyond the most significant bit

---
 src/literal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/literal.cpp b/src/literal.cpp
index 8d22580..744034d 100644
--- a/src/literal.cpp
+++ b/src/literal.cpp
@@ -363,7 +363,7 @@ Literal Literal::evaluate(Kind k, const std::vector<const Literal*>& args)
             Assert (i1.fitsUnsignedInt() && dsize.fitsUnsignedInt());
             uint32_t v1 = i1.toUnsignedInt();
             uint32_t vs = dsize.toUnsignedInt();
-            uint32_t v2 = i2>dsize ? vs-1 : i2.toUnsignedInt();
+            uint32_t v2 = i2>=dsize ? vs-1 : i2.toUnsignedInt();
             if (v1>v2)
             {
               return Literal(ka, BitVector(0));
-- 
2.43.0


From 4532f5c0c49d6f058fb8c0ad3a09adfbfdd1ec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:27 +0000
Subject: [PATCH 06/28] fix: do not evaluate eo::to_str on numerals that are
 not code points

---
 src/literal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/literal.cpp b/src/literal.cpp
index 744034d..c5b6667 100644
--- a/src/literal.cpp
+++ b/src/literal.cpp
@@ -451,6 +451,7 @@ Literal Literal::evaluate(Kind k, const std::vector<const Literal*>& args)
             }
           }
         }
+        break;
         case Kind::RATIONAL:return Literal(String(args[0]->toString()));
         case Kind::HEXADECIMAL:return Literal(String("#x" + args[0]->toString()));
         case Kind::BINARY:return Literal(String("#b" + args[0]->toString()));
-- 
2.43.0


From 1c5177c81b9b7a763815538980fe49fb9262ab58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:27 +0000
Subject: [PATCH 07/28] fix: print leading zeroes of hexadecimal literals

---
 src/util/bitvector.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/bitvector.cpp b/src/util/bitvector.cpp
index 69f8541..18b99ca 100644
--- a/src/util/bitvector.cpp
+++ b/src/util/bitvector.cpp
@@ -36,10 +36,11 @@ Integer BitVector::toInteger() const { return d_value; }
 std::string BitVector::toString(unsigned int base) const
 {
   std::string str = d_value.toString(base);
-  if (base == 2 && d_size > str.size())
+  size_t numDigits = base == 16 ? (d_size + 3) / 4 : d_size;
+  if ((base == 2 || base == 16) && numDigits > str.size())
   {
     std::string zeroes;
-    for (unsigned int i = 0; i < d_size - str.size(); ++i)
+    for (size_t i = 0, n = numDigits - str.size(); i < n; ++i)
     {
       zeroes.append("0");
     }
-- 
2.43.0


From 20972f0fff70536854e5f1c0d62eea24de2fbb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 08/28] fix: do not treat byte 0xff as the end of the input

---
 src/lexer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lexer.h b/src/lexer.h
index 30122c8..45750fa 100644
--- a/src/lexer.h
+++ b/src/lexer.h
@@ -92,7 +92,8 @@ class Lexer
   {
     if (d_bufferPos < d_bufferEnd)
     {
-      d_ch = d_buffer[d_bufferPos];
+      // as unsigned char, so that no byte is confused with EOF
+      d_ch = static_cast<unsigned char>(d_buffer[d_bufferPos]);
       d_bufferPos++;
     }
     else if (d_isInteractive)
@@ -110,7 +111,7 @@ class Lexer
       }
       else
       {
-        d_ch = d_buffer[0];
+        d_ch = static_cast<unsigned char>(d_buffer[0]);
         d_bufferPos = 1;
       }
     }
-- 
2.43.0


From ddc5a730883b2cb129ff6c146bd00b725fe1bc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 09/28] fix: do not consume the character following a one
 letter keyword

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 37278ae..9f97694 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -292,7 +292,7 @@ Token Lexer::computeNextToken()
       {
         parseError("Error expected symbol following :");
       }
-      parseNonEmptyCharList(CharacterClass::SYMBOL);
+      parseCharList(CharacterClass::SYMBOL);
       return Token::KEYWORD;
     default:
       if (isCharacterClass(ch, CharacterClass::DECIMAL_DIGIT))
-- 
2.43.0


From 3cef6cd556d54cf5bf8fcca4f34971b2cfb258c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 10/28] fix: do not drop non-printable characters of string
 literals

---
 src/util/string.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/util/string.cpp b/src/util/string.cpp
index acfb368..5c0c6e7 100644
--- a/src/util/string.cpp
+++ b/src/util/string.cpp
@@ -54,18 +54,9 @@ String String::concat(const String &other) const
 
 void String::addCharToInternal(unsigned char ch, std::vector<unsigned>& str)
 {
-  // if not a printable character
-  if (ch > 127 || ch < 32)
-  {
-    std::stringstream serr;
-    serr << "Illegal string character: \"" << ch
-         << "\", must use escape sequence";
-    //throw cvc5::internal::Exception(serr.str());
-  }
-  else
-  {
-    str.push_back(static_cast<unsigned>(ch));
-  }
+  // note that non-printable characters are kept, so that string literals that
+  // differ only in these are not identified
+  str.push_back(static_cast<unsigned>(ch));
 }
 
 std::vector<unsigned> String::toInternal(const std::string& s,
-- 
2.43.0


From f03dbe57b548ea79ca3ec94e7d80ba42701adf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 11/28] fix: rebuild left associative lists in the order their
 elements are read

---
 src/type_checker.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 21e1872..57d5df5 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -1025,10 +1025,12 @@ Expr TypeChecker::prependNAryChildren(ExprValue* op,
   if (isLeft)
   {
     ExprValue* c1;
-    for (auto it = hargs.begin(); it != hargs.end(); ++it)
+    // note that the first element is the outermost one, as it is returned
+    // by getNAryChildren
+    for (auto rit = hargs.rbegin(); rit != hargs.rend(); ++rit)
     {
       c1 = d_state.mkExprInternal(Kind::APPLY, {op, ret});
-      ret = d_state.mkExprInternal(Kind::APPLY, {c1, *it});
+      ret = d_state.mkExprInternal(Kind::APPLY, {c1, *rit});
     }
   }
   else
-- 
2.43.0


From eaecd6533b0d664d4581b972293e9faa190ba7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 12/28] fix: do not resolve overloads of a name for terms
 referenced by another name

---
 src/state.cpp | 33 +++++++++++++++++++++++++--------
 src/state.h   |  8 ++++++++
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index d4577dd..0425613 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -688,12 +688,11 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
         // must call mkExpr again, since we may auto-evaluate
         return mkExpr(ai->d_kind, achildren);
       }
-      if (ai->d_isOverloaded)
+      const std::vector<Expr>* ov = getOverloads(children[0], ai);
+      if (ov != nullptr)
       {
         Trace("overload") << "Use overload when constructing " << k << " " << children << std::endl;
-        std::vector<Expr>& ov = d_overloads[ai->d_overloadName];
-        Assert (ov.size()>=2);
-        Expr ret = getOverloadInternal(ov, children, nullptr, true);
+        Expr ret = getOverloadInternal(*ov, children, nullptr, true);
         if (!ret.isNull())
         {
           Trace("overload") << "...found overload " << ret << std::endl;
@@ -837,13 +836,12 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
       {
         dummyChildren.emplace_back(mkSymbol(Kind::CONST, "tmp", t));
       }
-      if (ai!=nullptr && ai->d_isOverloaded)
+      const std::vector<Expr>* ov = getOverloads(children[0], ai);
+      if (ov != nullptr)
       {
         Trace("overload") << "...overloaded" << std::endl;
-        std::vector<Expr>& ov = d_overloads[ai->d_overloadName];
-        Assert (ov.size()>=2);
         reto = getOverloadInternal(
-            ov, dummyChildren, ftype.second.getValue(), false);
+            *ov, dummyChildren, ftype.second.getValue(), false);
       }
       else
       {
@@ -1792,6 +1790,25 @@ bool State::markConstructorKind(const Expr& v, Attr a, const Expr& cons)
   return true;
 }
 
+const std::vector<Expr>* State::getOverloads(const Expr& e,
+                                             const AppInfo* ai) const
+{
+  if (ai == nullptr || !ai->d_isOverloaded)
+  {
+    return nullptr;
+  }
+  std::map<std::string, std::vector<Expr>>::const_iterator it =
+      d_overloads.find(ai->d_overloadName);
+  // If e is not what its name is currently bound to, then it was referenced via
+  // another name, e.g. it is the definition of a symbol that went out of scope.
+  if (it == d_overloads.end() || it->second.back() != e)
+  {
+    return nullptr;
+  }
+  Assert(it->second.size() >= 2);
+  return &it->second;
+}
+
 Expr State::getOverloadInternal(const std::vector<Expr>& overloads,
                                 const std::vector<Expr>& children,
                                 const ExprValue* retType,
diff --git a/src/state.h b/src/state.h
index 4a112ab..ca8b81f 100644
--- a/src/state.h
+++ b/src/state.h
@@ -314,6 +314,14 @@ class State
                               const Expr& type);
   /** Make literal internal */
   ExprValue* mkLiteralInternal(Literal& l);
+  /**
+   * Get the overloads to consider when e is the head of an application.
+   * @param e The head.
+   * @param ai The application info of e.
+   * @return The overloads of the symbol e was referenced by, or null if e is
+   * not overloaded.
+   */
+  const std::vector<Expr>* getOverloads(const Expr& e, const AppInfo* ai) const;
   /**
    * Get overload internal. This determines which one of the operators
    * in overloads (if any) should be applied in the Kind::APPLY we are
-- 
2.43.0


From 3de5d8872c0852a92538b1c07dbfd3e96f859298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 13/28] fix: reset proof rules and overloads but not the
 builtin symbols

---
 src/state.cpp | 12 +++++++++++-
 src/state.h   |  4 ++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/state.cpp b/src/state.cpp
index 0425613..a782980 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -192,13 +192,23 @@ State::State(Options& opts, Stats& stats)
   // Proof is the return type of terms with kind Kind::PROOF, which is an
   // ordinary type (not available in the parser).
   d_proofType = Expr(mkSymbolInternal(Kind::CONST, "eo::Proof", d_type));
+  // remember the symbols that are bound initially
+  d_builtinSymTable = d_symTable;
 }
 
 State::~State() {}
 
 void State::reset()
 {
-  d_symTable.clear();
+  // Keep the symbols alive, since the statistics and the set of proof rules
+  // marked :sorry refer to them.
+  d_resetSymTables.push_back(d_symTable);
+  d_resetSymTables.push_back(d_ruleSymTable);
+  // only the builtin symbols remain
+  d_symTable = d_builtinSymTable;
+  d_ruleSymTable.clear();
+  d_overloads.clear();
+  d_overloadedDecls.clear();
   d_assumptions.clear();
   d_assumptionsSizeCtx.clear();
   d_assumptionsScopeCtx.clear();
diff --git a/src/state.h b/src/state.h
index ca8b81f..751c7c7 100644
--- a/src/state.h
+++ b/src/state.h
@@ -354,6 +354,10 @@ class State
   //--------------------- parsing state
   /** The symbol table, mapping symbols */
   std::map<std::string, Expr> d_symTable;
+  /** The initial symbol table, containing the builtin symbols only */
+  std::map<std::string, Expr> d_builtinSymTable;
+  /** The symbol tables that were in use prior to each reset */
+  std::vector<std::map<std::string, Expr>> d_resetSymTables;
   /** Symbol table for proof rules, if using separate table */
   std::map<std::string, Expr> d_ruleSymTable;
   /** The (canonical) bound variables for binders */
-- 
2.43.0


From f6b747cc90f022f819f6f7269a61c62078cc66f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 14/28] fix: reject standard input that leaves an assumption
 scope open

---
 src/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index dff12d3..b4fea72 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -176,6 +176,10 @@ int main( int argc, char* argv[] )
     while (p.parseNextCommand())
     {
     }
+    if (s.getAssumptionLevel() != 0)
+    {
+      EO_FATAL() << "Error: the input did not preserve assumption scope.";
+    }
   }
   else
   {
-- 
2.43.0


From 6de39ea789a618d83d1734471aa06d978df3971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:37 +0000
Subject: [PATCH 15/28] fix: reject an empty premise list for a constructor
 without attributes

---
 src/state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state.cpp b/src/state.cpp
index a782980..3de0b96 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1536,7 +1536,7 @@ bool State::notifyStep(const std::string& name,
       {
         // the nil terminator if applied to empty list
         AppInfo* aic = getAppInfo(plCons.getValue());
-        Attr ck = aic->d_attrCons;
+        Attr ck = aic != nullptr ? aic->d_attrCons : Attr::NONE;
         if (isListNilAttr(ck))
         {
           ap = aic->d_attrConsTerm;
-- 
2.43.0


From b571ffebf2703d1f2ac313fee59926fa9e23356b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:08 +0000
Subject: [PATCH 16/28] fix: evaluate ground results of programs that are still
 evaluatable

---
 src/type_checker.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 57d5df5..78d882d 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -690,7 +690,9 @@ Expr TypeChecker::evaluate(ExprValue* e, Ctx& ctx)
                 // see if we evaluate
                 evaluated = evaluateProgramInternal(cchildren, newCtx);
                 //std::cout << "Evaluate prog returned " << evaluated << std::endl;
-                if (evaluated.isNull() || evaluated.isGround() || newCtx.empty())
+                if (evaluated.isNull()
+                    || (!evaluated.isEvaluatable()
+                        && (evaluated.isGround() || newCtx.empty())))
                 {
                   // if the evaluation can be shortcircuited, don't need to
                   // push a context
-- 
2.43.0


From f9a4a48f09da572f7835e9551c0725758aed20cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:30 +0000
Subject: [PATCH 17/28] fix: do not evaluate builtin operators with a wrong
 number of arguments

---
 src/type_checker.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 78d882d..6b5a2c2 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -1052,6 +1052,13 @@ Expr TypeChecker::evaluateLiteralOpInternal(
 {
   Assert (!args.empty());
   Trace("type_checker") << "EVALUATE-LIT " << k << " " << args << std::endl;
+  if (!checkArity(k, args.size()))
+  {
+    Warning() << "Wrong number of arguments when applying literal op " << k
+              << ", " << args.size() << " arguments (" << args << ")" << std::endl;
+    // does not evaluate if arity is wrong
+    return d_null;
+  }
   // special cases: ITE may evaluate if non-ground
   switch (k)
   {
@@ -1309,13 +1316,6 @@ Expr TypeChecker::evaluateLiteralOpInternal(
   // if all values, run the literal evaluator
   if (allValues)
   {
-    if (!checkArity(k, args.size()))
-    {
-      Warning() << "Wrong number of arguments when applying literal op " << k
-                << ", " << args.size() << " arguments (" << args << ")" << std::endl;
-      // does not evaluate if arity is wrong
-      return d_null;
-    }
     // evaluate
     Literal eval = Literal::evaluate(k, lits);
     if (eval.getKind()==Kind::NONE)
-- 
2.43.0


From 679f1148cc00ea30cdba5b9d2cbc769f3f213e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:57 +0000
Subject: [PATCH 18/28] fix: keep terms whose children are a prefix of those of
 a deleted term

---
 src/expr_trie.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/expr_trie.h b/src/expr_trie.h
index d912c01..d006f79 100644
--- a/src/expr_trie.h
+++ b/src/expr_trie.h
@@ -45,25 +45,22 @@ public:
     for (ExprValue* e : children)
     {
       itet = et->d_children.find(e);
-      if (etd == nullptr)
+      Assert (itet!=et->d_children.end());
+      if (etd == nullptr || et->d_children.size() > 1 || et->d_data != nullptr)
       {
-        // etd is the candidate trie to delete from
+        // etd is the candidate trie to delete from, which must not contain
+        // the data of another list of children
         etd = et;
         itetd = itet;
       }
-      Assert (itet!=et->d_children.end());
-      if (et->d_children.size() > 1)
-      {
-        etd = nullptr;
-      }
       et = &itet->second;
     }
+    et->d_data = nullptr;
     // delete the subtree for which et->d_data occurs in a single path
-    if (etd!=nullptr)
+    if (etd != nullptr && et->d_children.empty())
     {
       etd->d_children.erase(itetd);
     }
-    et->d_data = nullptr;
   }
 };
 
-- 
2.43.0


From ed988a00c76b09467ef6f5fd3be28e6217222794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:51 +0000
Subject: [PATCH 19/28] fix: store sums and products of numerals as integers

The result was constructed as a literal of kind NUMERAL holding a rational,
which was then read as an integer.
---
 src/literal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/literal.cpp b/src/literal.cpp
index c5b6667..b0c65f9 100644
--- a/src/literal.cpp
+++ b/src/literal.cpp
@@ -199,7 +199,7 @@ Literal Literal::evaluate(Kind k, const std::vector<const Literal*>& args)
             default: return Literal(); break;
             }
           }
-          return Literal(ka, res);
+          return Literal(res);
         }
           break;
         case Kind::DECIMAL:
-- 
2.43.0


From 46c37518040a121b2e8d3f1a71973098d94e4191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 20/28] fix: keep hashed terms alive, so that eo::hash gives a
 term one number only

---
 src/state.cpp | 2 ++
 src/state.h   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index 3de0b96..b1ce11f 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1644,6 +1644,8 @@ size_t State::getHash(const ExprValue* e)
   d_hashCounter++;
   size_t ret = d_hashCounter;
   d_hashMap[e] = ret;
+  // if it were deleted and built again, it would be given another hash
+  d_hashedExprs.emplace_back(e);
   return ret;
 }
 
diff --git a/src/state.h b/src/state.h
index 751c7c7..7151cc5 100644
--- a/src/state.h
+++ b/src/state.h
@@ -395,6 +395,8 @@ class State
   std::map<const ExprValue*, AppInfo> d_appData;
   /** Map from expressions to hash */
   std::map<const ExprValue*, size_t> d_hashMap;
+  /** The expressions in d_hashMap, kept alive so that their hash is stable */
+  std::vector<Expr> d_hashedExprs;
   /** Mapping expressions to types */
   std::map<const ExprValue*, Expr> d_typeCache;
   /** Hash counter */
-- 
2.43.0


From c39d9e5c212ee54416b6abbe26b8bca9975d8f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 21/28] fix: keep the stored results of programs alive while
 they are stored

---
 src/type_checker.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 6b5a2c2..6fcd083 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -689,6 +689,12 @@ Expr TypeChecker::evaluate(ExprValue* e, Ctx& ctx)
                 Ctx newCtx;
                 // see if we evaluate
                 evaluated = evaluateProgramInternal(cchildren, newCtx);
+                // ensure what is stored below is ref counted as well
+                if (!evaluated.isNull()
+                    && keep.insert(evaluated.getValue()).second)
+                {
+                  keepList.push_back(evaluated);
+                }
                 //std::cout << "Evaluate prog returned " << evaluated << std::endl;
                 if (evaluated.isNull()
                     || (!evaluated.isEvaluatable()
-- 
2.43.0


From 48de237287bdbc5c66577889dc3fefd61b451bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:58 +0000
Subject: [PATCH 22/28] fix: keep proof rules and programs alive, since :sorry
 and the statistics refer to them by address

---
 src/state.cpp | 4 ++++
 src/state.h   | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index b1ce11f..6855f9e 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -655,6 +655,10 @@ ExprValue* State::mkSymbolInternal(Kind k,
   // immediately set its type
   d_typeCache[v] = type;
   Trace("type_checker") << "TYPE " << name << " : " << type << std::endl;
+  if (k == Kind::PROOF_RULE || k == Kind::PROGRAM_CONST)
+  {
+    d_rulesAndPrograms.emplace_back(v);
+  }
   //d_symcMap[key] = v;
   return v;
 }
diff --git a/src/state.h b/src/state.h
index 7151cc5..d84864d 100644
--- a/src/state.h
+++ b/src/state.h
@@ -417,6 +417,11 @@ class State
   Filepath d_inputFile;
   /** The proof rules marked :sorry */
   std::unordered_set<const ExprValue*> d_pfrSorry;
+  /**
+   * The proof rules and programs, kept alive since the above set and the
+   * statistics refer to them by address.
+   */
+  std::vector<Expr> d_rulesAndPrograms;
   /** Cache of files included */
   std::set<Filepath> d_includes;
   /** Have we parsed a reference file to check assumptions? */
-- 
2.43.0


From 5f26088fcc430d4bebe48d75a571748baf758d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:26 +0000
Subject: [PATCH 23/28] fix: infer the nil terminator of an overload from the
 overload itself

---
 src/state.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/state.cpp b/src/state.cpp
index 6855f9e..7fdae3a 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1837,6 +1837,8 @@ Expr State::getOverloadInternal(const std::vector<Expr>& overloads,
   {
     vchildren.push_back(c.getValue());
   }
+  // the application of the current overload
+  std::vector<Expr> ochildren = children;
   // try overloads in order until one is found
   for (size_t i=0, noverloads = overloads.size(); i<noverloads; i++)
   {
@@ -1851,7 +1853,8 @@ Expr State::getOverloadInternal(const std::vector<Expr>& overloads,
     if (ai != nullptr)
     {
       Trace("overload") << "...has property " << ai->d_attrCons << std::endl;
-      Expr consTerm = d_tc.computeConstructorTermInternal(ai, children);
+      ochildren[0] = overloads[ii];
+      Expr consTerm = d_tc.computeConstructorTermInternal(ai, ochildren);
       x = mkApplyAttr(ai, vchildren, consTerm);
     }
     if (x.isNull())
-- 
2.43.0


From 22acfc796cde3ec9df65870bebf46067b0c7da0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 24/28] fix: keep a parametric datatype of declare-datatype
 bound after its definition

---
 src/expr_parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 6b26697..16f6fd3 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -815,6 +815,12 @@ bool ExprParser::parseDatatypesDef(
     {
       d_lex.eatToken(Token::RPAREN);
       d_state.popScope();
+      // if the arity was not fixed, the datatype was bound in the scope of its
+      // parameters only, hence bind it in the outer scope as well
+      if (i >= arities.size() && !d_state.bind(dnames[i], dt))
+      {
+        return false;
+      }
     }
     for (std::pair<std::string, Expr>& b : toBind)
     {
-- 
2.43.0


From eccb0ddf9403972de4f2377615adb98329cd981a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 25/28] fix: give eo::cons the type of the list it extends

(eo::cons f t1 t2) was typed as t1, so that it could not be used where the
type of the elements of a list is not the type of the list.
---
 src/type_checker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 6fcd083..0230072 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -1746,9 +1746,9 @@ Expr TypeChecker::getLiteralOpType(Kind k,
     case Kind::EVAL_NOT:
       return Expr(childTypes[0]);
     case Kind::EVAL_IF_THEN_ELSE:
-    case Kind::EVAL_CONS:
       return Expr(childTypes[1]);
     case Kind::EVAL_REQUIRES:
+    case Kind::EVAL_CONS:
       return Expr(childTypes[2]);
     case Kind::EVAL_LIST_CONCAT:
     case Kind::EVAL_LIST_NTH:
-- 
2.43.0


From 646cdf676a3805c333f21e5f00d830ae8c27a05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 26/28] fix: every datatype of a declare-datatypes must be
 defined

---
 src/expr_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 16f6fd3..94b07c7 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -832,7 +832,7 @@ bool ExprParser::parseDatatypesDef(
     tok = d_lex.nextToken();
     i++;
   }
-  if (dtlist.size() != dnames.size())
+  if (i != dnames.size())
   {
     d_lex.unexpectedTokenError(tok, "Wrong number of datatypes provided.");
   }
-- 
2.43.0


From d5769618f972f8cfb79a88010c08cf3bd3a1f381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:34 +0000
Subject: [PATCH 27/28] fix: a sign followed by a point or slash is not a
 number

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 9f97694..38a286e 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -411,7 +411,7 @@ Token Lexer::tokenizeCurrentSymbol() const
           {
             continue;
           }
-          else if (i+1<tsize && ret==Token::INTEGER_LITERAL)
+          else if (i>1 && i+1<tsize && ret==Token::INTEGER_LITERAL)
           {
             if (d_token[i]=='.')
             {
-- 
2.43.0


From ad106e4e16276a70a32a92cc29a51f8a0bd96544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:50 +0000
Subject: [PATCH 28/28] fix: reset the declared types of literals

---
 src/state.cpp        | 12 ++++++++++++
 src/type_checker.cpp |  8 ++++++++
 src/type_checker.h   |  2 ++
 3 files changed, 22 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index 7fdae3a..d8b59a2 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -214,6 +214,18 @@ void State::reset()
   d_assumptionsScopeCtx.clear();
   d_decls.clear();
   d_declsSizeCtx.clear();
+  // The types of literals are no longer declared, hence forget also the types
+  // of all terms that were computed so far. The types of symbols are given.
+  d_tc.resetLiteralTypeRules();
+  std::map<const ExprValue*, Expr> types;
+  types.swap(d_typeCache);
+  for (const std::pair<const ExprValue* const, Expr>& t : types)
+  {
+    if (isSymbol(t.first->getKind()))
+    {
+      d_typeCache.insert(t);
+    }
+  }
   if (d_plugin!=nullptr)
   {
     d_plugin->reset();
diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 0230072..b04edd6 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -57,6 +57,14 @@ void TypeChecker::setLiteralTypeRule(Kind k, const Expr& t)
   it->second = t;
 }
 
+void TypeChecker::resetLiteralTypeRules()
+{
+  for (std::pair<const Kind, Expr>& r : d_literalTypeRules)
+  {
+    r.second = d_null;
+  }
+}
+
 Expr TypeChecker::getOrSetLiteralTypeRule(Kind k, ExprValue* self)
 {
   std::map<Kind, Expr>::iterator it = d_literalTypeRules.find(k);
diff --git a/src/type_checker.h b/src/type_checker.h
index 4f04b72..4dab926 100644
--- a/src/type_checker.h
+++ b/src/type_checker.h
@@ -45,6 +45,8 @@ class TypeChecker
   static bool checkArity(Kind k, size_t nargs, std::ostream* out = nullptr);
   /** Set type rule for literal kind k to t */
   void setLiteralTypeRule(Kind k, const Expr& t);
+  /** Forget the type rules of all literal kinds */
+  void resetLiteralTypeRules();
   /**
    * Evaluate the expression e in the given context.
    */
-- 
2.43.0

