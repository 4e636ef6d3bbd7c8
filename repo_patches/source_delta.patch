From 4e934342a89469b666104947dc5494a97efef144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 01/29] fix: queries and replacements of a function's types
 recursed forever

Func and LLVMFunc delegated to the public (virtual) entry points of their base
instead of the base class hooks, so getUsedTypes/replaceUsedType on any function
never returned; LLVMFunc::doReplaceUsedType also skipped the parent type.
---
 codon/cir/func.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/codon/cir/func.cpp b/codon/cir/func.cpp
index 061f557..f0196ed 100644
--- a/codon/cir/func.cpp
+++ b/codon/cir/func.cpp
@@ -61,7 +61,7 @@ int Func::doReplaceUsedVariable(id_t id, Var *newVar) {
 std::vector<types::Type *> Func::doGetUsedTypes() const {
   std::vector<types::Type *> ret;
 
-  for (auto *t : Var::getUsedTypes())
+  for (auto *t : Var::doGetUsedTypes())
     ret.push_back(const_cast<types::Type *>(t));
 
   if (parentType)
@@ -71,7 +71,7 @@ std::vector<types::Type *> Func::doGetUsedTypes() const {
 }
 
 int Func::doReplaceUsedType(const std::string &name, types::Type *newType) {
-  auto count = Var::replaceUsedType(name, newType);
+  auto count = Var::doReplaceUsedType(name, newType);
   if (parentType && parentType->getName() == name) {
     parentType = newType;
     ++count;
@@ -110,7 +110,7 @@ const char LLVMFunc::NodeId = 0;
 std::vector<types::Type *> LLVMFunc::doGetUsedTypes() const {
   std::vector<types::Type *> ret;
 
-  for (auto *t : Func::getUsedTypes())
+  for (auto *t : Func::doGetUsedTypes())
     ret.push_back(const_cast<types::Type *>(t));
 
   for (auto &l : llvmLiterals)
@@ -121,7 +121,7 @@ std::vector<types::Type *> LLVMFunc::doGetUsedTypes() const {
 }
 
 int LLVMFunc::doReplaceUsedType(const std::string &name, types::Type *newType) {
-  auto count = Var::doReplaceUsedType(name, newType);
+  auto count = Func::doReplaceUsedType(name, newType);
   for (auto &l : llvmLiterals)
     if (l.isType() && l.getTypeValue()->getName() == name) {
       l = newType;
-- 
2.43.0


From 02213e204b122218f0169414ab48060de9042b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 02/29] fix: replacing types or variables under a catch-all or
 unnamed handler dereferenced null

---
 codon/cir/flow.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codon/cir/flow.cpp b/codon/cir/flow.cpp
index 172be5e..56af198 100644
--- a/codon/cir/flow.cpp
+++ b/codon/cir/flow.cpp
@@ -219,7 +219,7 @@ std::vector<types::Type *> TryCatchFlow::doGetUsedTypes() const {
 int TryCatchFlow::doReplaceUsedType(const std::string &name, types::Type *newType) {
   auto count = 0;
   for (auto &c : catches) {
-    if (c.getType()->getName() == name) {
+    if (c.getType() && c.getType()->getName() == name) {
       c.setType(newType);
       ++count;
     }
@@ -239,7 +239,7 @@ std::vector<Var *> TryCatchFlow::doGetUsedVariables() const {
 int TryCatchFlow::doReplaceUsedVariable(id_t id, Var *newVar) {
   auto count = 0;
   for (auto &c : catches) {
-    if (c.getVar()->getId() == id) {
+    if (c.getVar() && c.getVar()->getId() == id) {
       c.setVar(newVar);
       ++count;
     }
-- 
2.43.0


From 93959ed854b6bafc00c046eced34755d1bc9e4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 03/29] fix: report the base of a vector type, and no null
 argument of a synthetic assignment

---
 codon/cir/analyze/dataflow/cfg.h | 4 +++-
 codon/cir/types/types.h          | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/codon/cir/analyze/dataflow/cfg.h b/codon/cir/analyze/dataflow/cfg.h
index 7a5d16a..604ab4e 100644
--- a/codon/cir/analyze/dataflow/cfg.h
+++ b/codon/cir/analyze/dataflow/cfg.h
@@ -213,7 +213,9 @@ public:
   void setKind(Kind k) { kind = k; }
 
 protected:
-  std::vector<Value *> doGetUsedValues() const override { return {arg}; }
+  std::vector<Value *> doGetUsedValues() const override {
+    return arg ? std::vector<Value *>{arg} : std::vector<Value *>();
+  }
   int doReplaceUsedValue(id_t id, Value *newValue) override;
 
   std::vector<Var *> doGetUsedVariables() const override { return {lhs}; }
diff --git a/codon/cir/types/types.h b/codon/cir/types/types.h
index 4b7c743..1d5ac40 100644
--- a/codon/cir/types/types.h
+++ b/codon/cir/types/types.h
@@ -545,6 +545,9 @@ public:
   PrimitiveType *getBase() const { return base; }
 
   static std::string getInstanceName(unsigned count, PrimitiveType *base);
+
+private:
+  std::vector<Type *> doGetUsedTypes() const override { return {base}; }
 };
 
 class UnionType : public AcceptorExtend<UnionType, Type> {
-- 
2.43.0


From c5c79919e71f3cd052e17df6eeaa75d8c9b73067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 04/29] fix: clones of bodied, external and LLVM functions lost
 their parent type

---
 codon/cir/util/cloning.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codon/cir/util/cloning.cpp b/codon/cir/util/cloning.cpp
index 3ea1b2f..3c0bc7f 100644
--- a/codon/cir/util/cloning.cpp
+++ b/codon/cir/util/cloning.cpp
@@ -101,6 +101,7 @@ void CloneVisitor::visit(const BodiedFunc *v) {
 
   // body might reference this!
   forceRemap(v, res);
+  res->setParentType(v->getParentType());
 
   if (v->getBody())
     res->setBody(clone(v->getBody()));
@@ -126,6 +127,7 @@ void CloneVisitor::visit(const ExternalFunc *v) {
     ++argIt2;
   }
 
+  res->setParentType(v->getParentType());
   result = res;
 }
 
@@ -169,6 +171,7 @@ void CloneVisitor::visit(const LLVMFunc *v) {
     ++argIt2;
   }
 
+  res->setParentType(v->getParentType());
   res->setLLVMBody(v->getLLVMBody());
   res->setLLVMDeclarations(v->getLLVMDeclarations());
   res->setLLVMLiterals(
-- 
2.43.0


From 1dfbc4a00e24e9e9ab70589612ec205d6f6b6f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 05/29] fix: node matching ignored varIdMatch and inverted
 checkNames

match() never forwarded varIdMatch to the visitor, nor the visitor to its
children, so different variables of one type matched (e.g. the dictionary
lookup pass merged d[i] = d.get(j, 0) + x); node names were compared exactly
when the caller asked not to.
---
 codon/cir/util/matching.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/codon/cir/util/matching.cpp b/codon/cir/util/matching.cpp
index a93aed7..b49bcd4 100644
--- a/codon/cir/util/matching.cpp
+++ b/codon/cir/util/matching.cpp
@@ -16,7 +16,7 @@
       nodeId = &x::NodeId;                                                             \
       other = v;                                                                       \
     } else if (nodeId != &x::NodeId ||                                                 \
-               (!checkName && v->getName() != other->getName()))                       \
+               (checkName && v->getName() != other->getName()))                        \
       result = false;                                                                  \
     else                                                                               \
       handle(v, static_cast<const x *>(other));                                        \
@@ -249,7 +249,7 @@ public:
     if (tx || ty)
       return tx && ty && tx->is(const_cast<types::Type *>(ty));
 
-    MatchVisitor v(checkName);
+    MatchVisitor v(checkName, varIdMatch);
     x->accept(v);
     y->accept(v);
 
@@ -284,7 +284,7 @@ const char AnyVar::NodeId = 0;
 const char AnyFunc::NodeId = 0;
 
 bool match(Node *a, Node *b, bool checkNames, bool varIdMatch) {
-  return MatchVisitor(checkNames).process(a, b);
+  return MatchVisitor(checkNames, varIdMatch).process(a, b);
 }
 
 } // namespace util
-- 
2.43.0


From a1ef96741769445f03455a1edec7fdad218bbe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 06/29] fix: node matching ignored try flows, final yields,
 suspension, schedules and function kinds

Two identical try flows never matched; nodes that differ in a final yield, a
suspending yield expression, a parallel schedule, the generator or async flag of
a function or the name of an internal function did.
---
 codon/cir/util/matching.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/codon/cir/util/matching.cpp b/codon/cir/util/matching.cpp
index b49bcd4..02847fa 100644
--- a/codon/cir/util/matching.cpp
+++ b/codon/cir/util/matching.cpp
@@ -57,7 +57,7 @@ public:
   }
   VISIT(InternalFunc);
   void handle(const InternalFunc *x, const InternalFunc *y) {
-    result = x->getParentType() == y->getParentType() && compareFuncs(x, y);
+    result = x->getUnmangledName() == y->getUnmangledName() && compareFuncs(x, y);
   }
   VISIT(LLVMFunc);
   void handle(const LLVMFunc *x, const LLVMFunc *y) {
@@ -108,17 +108,20 @@ public:
   VISIT(ForFlow);
   void handle(const ForFlow *x, const ForFlow *y) {
     result = (x->isAsync() == y->isAsync()) && process(x->getIter(), y->getIter()) &&
-             process(x->getBody(), y->getBody()) && process(x->getVar(), y->getVar());
+             process(x->getBody(), y->getBody()) &&
+             process(x->getVar(), y->getVar()) &&
+             compareSchedules(x->getSchedule(), y->getSchedule());
   }
   VISIT(ImperativeForFlow);
   void handle(const ImperativeForFlow *x, const ImperativeForFlow *y) {
     result = process(x->getVar(), y->getVar()) && process(x->getBody(), y->getBody()) &&
              process(x->getStart(), y->getStart()) && x->getStep() == y->getStep() &&
-             process(x->getEnd(), y->getEnd());
+             process(x->getEnd(), y->getEnd()) &&
+             compareSchedules(x->getSchedule(), y->getSchedule());
   }
   VISIT(TryCatchFlow);
   void handle(const TryCatchFlow *x, const TryCatchFlow *y) {
-    result = result && process(x->getElse(), y->getElse()) &&
+    result = process(x->getElse(), y->getElse()) &&
              process(x->getFinally(), y->getFinally()) &&
              process(x->getBody(), y->getBody()) &&
              std::equal(x->begin(), x->end(), y->begin(), y->end(),
@@ -194,7 +197,8 @@ public:
   }
   VISIT(YieldInInstr);
   void handle(const YieldInInstr *x, const YieldInInstr *y) {
-    result = process(x->getType(), y->getType());
+    result = process(x->getType(), y->getType()) &&
+             x->isSuspending() == y->isSuspending();
   }
   VISIT(TernaryInstr);
   void handle(const TernaryInstr *x, const TernaryInstr *y) {
@@ -216,7 +220,8 @@ public:
   }
   VISIT(YieldInstr);
   void handle(const YieldInstr *x, const YieldInstr *y) {
-    result = process(x->getValue(), y->getValue());
+    result =
+        process(x->getValue(), y->getValue()) && x->isFinal() == y->isFinal();
   }
   VISIT(AwaitInstr);
   void handle(const AwaitInstr *x, const AwaitInstr *y) {
@@ -262,10 +267,23 @@ private:
            (!varIdMatch || x->getId() == y->getId());
   }
 
+  bool compareSchedules(const transform::parallel::OMPSched *x,
+                        const transform::parallel::OMPSched *y) const {
+    if (!x || !y)
+      return !x && !y;
+    return x->code == y->code && x->dynamic == y->dynamic &&
+           process(x->threads, y->threads) && process(x->chunk, y->chunk) &&
+           x->ordered == y->ordered && x->collapse == y->collapse && x->gpu == y->gpu;
+  }
+
   bool compareFuncs(const Func *x, const Func *y) const {
     if (!compareVars(x, y))
       return false;
 
+    if (x->isGenerator() != y->isGenerator() || x->isAsync() != y->isAsync() ||
+        !process(x->getParentType(), y->getParentType()))
+      return false;
+
     if (!std::equal(x->arg_begin(), x->arg_end(), y->arg_begin(), y->arg_end(),
                     [this](auto *x, auto *y) { return process(x, y); }))
       return false;
-- 
2.43.0


From 347c28fd405e7a688a151338cc8f9f4579986b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 07/29] fix: matching a loop that contains a break or continue
 never terminated

---
 codon/cir/util/matching.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/codon/cir/util/matching.cpp b/codon/cir/util/matching.cpp
index 02847fa..1140a29 100644
--- a/codon/cir/util/matching.cpp
+++ b/codon/cir/util/matching.cpp
@@ -18,8 +18,10 @@
     } else if (nodeId != &x::NodeId ||                                                 \
                (checkName && v->getName() != other->getName()))                        \
       result = false;                                                                  \
-    else                                                                               \
+    else {                                                                             \
+      current = v;                                                                     \
       handle(v, static_cast<const x *>(other));                                        \
+    }                                                                                  \
   }
 
 namespace codon {
@@ -33,6 +35,8 @@ private:
   const char *nodeId = nullptr;
   bool result = false;
   const Node *other = nullptr;
+  const Node *current = nullptr;
+  const MatchVisitor *parent = nullptr;
   bool varIdMatch;
 
 public:
@@ -208,11 +212,11 @@ public:
   }
   VISIT(BreakInstr);
   void handle(const BreakInstr *x, const BreakInstr *y) {
-    result = process(x->getLoop(), y->getLoop());
+    result = compareLoops(x->getLoop(), y->getLoop());
   }
   VISIT(ContinueInstr);
   void handle(const ContinueInstr *x, const ContinueInstr *y) {
-    result = process(x->getLoop(), y->getLoop());
+    result = compareLoops(x->getLoop(), y->getLoop());
   }
   VISIT(ReturnInstr);
   void handle(const ReturnInstr *x, const ReturnInstr *y) {
@@ -255,6 +259,7 @@ public:
       return tx && ty && tx->is(const_cast<types::Type *>(ty));
 
     MatchVisitor v(checkName, varIdMatch);
+    v.parent = this;
     x->accept(v);
     y->accept(v);
 
@@ -267,6 +272,15 @@ private:
            (!varIdMatch || x->getId() == y->getId());
   }
 
+  bool compareLoops(const Value *x, const Value *y) const {
+    // a loop that is being matched contains the jump: do not descend into it again
+    for (auto *p = this; p; p = p->parent) {
+      if (p->current && (p->current == x || p->other == y))
+        return p->current == x && p->other == y;
+    }
+    return process(x, y);
+  }
+
   bool compareSchedules(const transform::parallel::OMPSched *x,
                         const transform::parallel::OMPSched *y) const {
     if (!x || !y)
-- 
2.43.0


From 65d38562625b3548db2a6f01ca2f782f65612cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 08/29] fix: some queries and attribute changes of a replaced
 node reached the node itself

---
 codon/cir/base.h | 6 ++++--
 codon/cir/var.h  | 8 +++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/codon/cir/base.h b/codon/cir/base.h
index 2eff6a2..00f5b54 100644
--- a/codon/cir/base.h
+++ b/codon/cir/base.h
@@ -162,8 +162,10 @@ public:
   template <typename AttributeType> const AttributeType *getAttribute(int key) const {
     return static_cast<const AttributeType *>(getAttribute(key));
   }
-  void eraseAttribute(int key) { attributes.erase(key); }
-  void cloneAttributesFrom(Node *n) { attributes = codon::clone(n->attributes); }
+  void eraseAttribute(int key) { getActual()->attributes.erase(key); }
+  void cloneAttributesFrom(Node *n) {
+    getActual()->attributes = codon::clone(n->getActual()->attributes);
+  }
 
   /// @return iterator to the first attribute
   auto attributes_begin() {
diff --git a/codon/cir/var.h b/codon/cir/var.h
index aece4e5..bb58a4a 100644
--- a/codon/cir/var.h
+++ b/codon/cir/var.h
@@ -50,7 +50,7 @@ public:
     return std::vector<const Value *>(ret.begin(), ret.end());
   }
   int replaceUsedValue(id_t id, Value *newValue) final {
-    return doReplaceUsedValue(id, newValue);
+    return getActual()->doReplaceUsedValue(id, newValue);
   }
   using Node::replaceUsedValue;
 
@@ -62,9 +62,11 @@ public:
   }
   using Node::replaceUsedType;
 
-  std::vector<Var *> getUsedVariables() final { return doGetUsedVariables(); }
+  std::vector<Var *> getUsedVariables() final {
+    return getActual()->doGetUsedVariables();
+  }
   std::vector<const Var *> getUsedVariables() const final {
-    auto ret = doGetUsedVariables();
+    auto ret = getActual()->doGetUsedVariables();
     return std::vector<const Var *>(ret.begin(), ret.end());
   }
   int replaceUsedVariable(id_t id, Var *newVar) final {
-- 
2.43.0


From 6a65d94eb7a15abac6c213636fba4784dbe04763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 09/29] fix: list and set literal attributes shared one
 identifier

---
 codon/cir/attribute.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codon/cir/attribute.cpp b/codon/cir/attribute.cpp
index 7164dcf..e3181cf 100644
--- a/codon/cir/attribute.cpp
+++ b/codon/cir/attribute.cpp
@@ -19,7 +19,7 @@ const int PythonWrapperAttribute::AttributeID = 106;
 const int SrcInfoAttribute::AttributeID = 107;
 const int DocstringAttribute::AttributeID = 108;
 const int TupleLiteralAttribute::AttributeID = 109;
-const int ListLiteralAttribute::AttributeID = 111;
+const int ListLiteralAttribute::AttributeID = 110;
 const int SetLiteralAttribute::AttributeID = 111;
 const int DictLiteralAttribute::AttributeID = 112;
 const int PartialFunctionAttribute::AttributeID = 113;
-- 
2.43.0


From 725ed1e10872c50ccfb8d62b0e506bb33e6aec40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 10/29] fix: every instruction claimed to be a synthetic
 instruction

---
 codon/cir/analyze/dataflow/cfg.cpp | 2 ++
 codon/cir/analyze/dataflow/cfg.h   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/codon/cir/analyze/dataflow/cfg.cpp b/codon/cir/analyze/dataflow/cfg.cpp
index 6563f9a..0a6a42c 100644
--- a/codon/cir/analyze/dataflow/cfg.cpp
+++ b/codon/cir/analyze/dataflow/cfg.cpp
@@ -58,6 +58,8 @@ const Value *convertPipelineToForLoops(analyze::dataflow::CFGraph *cfg,
 
 void CFBlock::reg(const Value *v) { graph->valueLocations[v->getId()] = this; }
 
+const char SyntheticInstr::NodeId = 0;
+
 const char SyntheticAssignInstr::NodeId = 0;
 
 int SyntheticAssignInstr::doReplaceUsedValue(id_t id, Value *newValue) {
diff --git a/codon/cir/analyze/dataflow/cfg.h b/codon/cir/analyze/dataflow/cfg.h
index 604ab4e..0efa63f 100644
--- a/codon/cir/analyze/dataflow/cfg.h
+++ b/codon/cir/analyze/dataflow/cfg.h
@@ -127,6 +127,8 @@ private:
   const Node *source;
 
 public:
+  static const char NodeId;
+
   /// Constructs a synthetic instruction.
   /// @param source the node that gave rise to this instruction
   /// @param name the name of the instruction
-- 
2.43.0


From 04142bd61c0ffb145fba85ad377665d910cd84e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 11/29] fix: folding x*0 dropped the side effects of x

---
 codon/cir/transform/folding/rule.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/codon/cir/transform/folding/rule.h b/codon/cir/transform/folding/rule.h
index 16b1fe8..89a18b4 100644
--- a/codon/cir/transform/folding/rule.h
+++ b/codon/cir/transform/folding/rule.h
@@ -44,7 +44,10 @@ public:
                                 std::string magic, Kind kind, types::Type *type)
       : val(val), type(type), magic(std::move(magic)), kind(kind) {
     calc = [=](Value *v) -> Value * {
-      return v->getModule()->N<TemplatedConst<ConstantType>>(v->getSrcInfo(), val,
+      // The other operand is dropped, so it must not have any side effects.
+      if (!isA<Const>(v) && !isA<VarValue>(v))
+        return nullptr;
+      return v->getModule()->N<TemplatedConst<ConstantType>>(v->getSrcInfo(), newVal,
                                                              type);
     };
   }
-- 
2.43.0


From 0be67a1ebdcfdd70e8f4f97f2e123f4503be2276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 12/29] fix: folding 0 // x dropped the exception for a zero
 divisor

---
 codon/cir/transform/folding/const_fold.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codon/cir/transform/folding/const_fold.cpp b/codon/cir/transform/folding/const_fold.cpp
index 1146d9a..6b4321a 100644
--- a/codon/cir/transform/folding/const_fold.cpp
+++ b/codon/cir/transform/folding/const_fold.cpp
@@ -236,8 +236,10 @@ void FoldingPass::registerStandardRules(Module *m) {
   registerRule(
       "int-floor-div-by-one",
       intSingleRule(m, 1, id_val(m), Module::FLOOR_DIV_MAGIC_NAME, Kind::RIGHT));
-  registerRule("int-zero-floor-div",
-               intSingleRule(m, 0, 0, Module::FLOOR_DIV_MAGIC_NAME, Kind::LEFT));
+  // "0 // x" raises an exception for zero "x" with Python numerics
+  if (!pyNumerics)
+    registerRule("int-zero-floor-div",
+                 intSingleRule(m, 0, 0, Module::FLOOR_DIV_MAGIC_NAME, Kind::LEFT));
   registerRule("int-pos", intNoOp(m, Module::POS_MAGIC_NAME));
   registerRule("int-double-neg", intDoubleApplyNoOp(m, Module::NEG_MAGIC_NAME));
   registerRule("int-double-inv", intDoubleApplyNoOp(m, Module::INVERT_MAGIC_NAME));
-- 
2.43.0


From 106a807e930c9bf1bed700d6dfdbbd0964faaa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 13/29] fix: folding the most negative integer divided by -1
 crashed the compiler

---
 codon/cir/transform/folding/const_fold.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/codon/cir/transform/folding/const_fold.cpp b/codon/cir/transform/folding/const_fold.cpp
index 6b4321a..45a0ad9 100644
--- a/codon/cir/transform/folding/const_fold.cpp
+++ b/codon/cir/transform/folding/const_fold.cpp
@@ -3,6 +3,8 @@
 #include "const_fold.h"
 
 #include <cmath>
+#include <limits>
+#include <type_traits>
 #include <utility>
 
 #include "codon/cir/util/cloning.h"
@@ -88,6 +90,13 @@ public:
       auto *rightConst = cast<TemplatedConst<ConstantType>>(v->back());
       if (rightConst && rightConst->getVal() == ConstantType())
         return;
+      if constexpr (std::is_same_v<ConstantType, int64_t>) {
+        // Quotient is not representable, and evaluating it would trap.
+        auto *leftConst = cast<TemplatedConst<ConstantType>>(v->front());
+        if (leftConst && rightConst && rightConst->getVal() == -1 &&
+            leftConst->getVal() == std::numeric_limits<int64_t>::min())
+          return;
+      }
     }
     DoubleConstantBinaryRule<ConstantType, Func, OutputType>::visit(v);
   }
-- 
2.43.0


From 15bdf095588120be34527f17392f622b5e36a604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 14/29] fix: constant propagation ignored assignments of a
 global by loops and handlers

---
 codon/cir/analyze/module/global_vars.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/codon/cir/analyze/module/global_vars.cpp b/codon/cir/analyze/module/global_vars.cpp
index 3cd81c0..e68bd05 100644
--- a/codon/cir/analyze/module/global_vars.cpp
+++ b/codon/cir/analyze/module/global_vars.cpp
@@ -28,6 +28,23 @@ struct GlobalVarAnalyzer : public util::Operator {
       }
     }
   }
+
+  void handle(ForFlow *v) override { handleFlowVar(v->getVar()); }
+
+  void handle(ImperativeForFlow *v) override { handleFlowVar(v->getVar()); }
+
+  void handle(TryCatchFlow *v) override {
+    for (auto &c : *v) {
+      handleFlowVar(c.getVar());
+    }
+  }
+
+private:
+  // loop and exception variables are assigned implicitly by their flows
+  void handleFlowVar(Var *var) {
+    if (var && var->isGlobal())
+      assignments[var->getId()] = -1;
+  }
 };
 } // namespace
 
-- 
2.43.0


From 96dfd4a674820f872671160e0505144b1c5ab5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 15/29] fix: do not swap the factors of a non-commutative
 distributive multiplication

---
 codon/cir/transform/cleanup/canonical.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codon/cir/transform/cleanup/canonical.cpp b/codon/cir/transform/cleanup/canonical.cpp
index 3f70053..fd81884 100644
--- a/codon/cir/transform/cleanup/canonical.cpp
+++ b/codon/cir/transform/cleanup/canonical.cpp
@@ -256,6 +256,7 @@ struct CanonAddMul : public RewriteRule {
     }
 
     Value *newCall = nullptr;
+    bool swapsFactors = true; // all but the last case move 'x' to the right
     if (varMatch(lhs1, rhs1)) {
       newCall = addMul(lhs2, rhs2, lhs1);
     } else if (varMatch(lhs1, rhs2)) {
@@ -264,9 +265,11 @@ struct CanonAddMul : public RewriteRule {
       newCall = addMul(lhs1, rhs2, lhs2);
     } else if (varMatch(lhs2, rhs2)) {
       newCall = addMul(lhs1, rhs1, lhs2);
+      swapsFactors = false;
     }
 
     if (newCall && isDistributiveOp(getOp(newCall)) &&
+        (!swapsFactors || isCommutativeOp(getOp(newCall))) &&
         newCall->getType()->is(v->getType()) &&
         !util::match(v, newCall, /*checkNames=*/false, /*varIdMatch=*/true))
       return setResult(newCall);
-- 
2.43.0


From babed78a70467f663055fabdbcf358fe6b71ea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 16/29] fix: enter the body of a while loop from the end of its
 condition

---
 codon/cir/analyze/dataflow/cfg.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codon/cir/analyze/dataflow/cfg.cpp b/codon/cir/analyze/dataflow/cfg.cpp
index 0a6a42c..0d88b09 100644
--- a/codon/cir/analyze/dataflow/cfg.cpp
+++ b/codon/cir/analyze/dataflow/cfg.cpp
@@ -197,11 +197,13 @@ void CFVisitor::visit(const WhileFlow *v) {
   auto *loopBegin = graph->newBlock("whileBegin", true);
   original->successors_insert(loopBegin);
   process(v->getCond());
-  graph->getCurrentBlock()->successors_insert(end);
+  // the condition may span several blocks
+  auto *condEnd = graph->getCurrentBlock();
+  condEnd->successors_insert(end);
 
   loopStack.emplace_back(loopBegin, end, v->getId(), tryCatchStack.size() - 1);
   auto *body = graph->newBlock("whileBody", true);
-  loopBegin->successors_insert(body);
+  condEnd->successors_insert(body);
   process(v->getBody());
   loopStack.pop_back();
   graph->getCurrentBlock()->successors_insert(loopBegin);
-- 
2.43.0


From 2f675cf7233899705691ad59757e56840748be22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 17/29] fix: the body of an imperative loop continues with the
 update of the loop variable

---
 codon/cir/analyze/dataflow/cfg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codon/cir/analyze/dataflow/cfg.cpp b/codon/cir/analyze/dataflow/cfg.cpp
index 0d88b09..8b49b20 100644
--- a/codon/cir/analyze/dataflow/cfg.cpp
+++ b/codon/cir/analyze/dataflow/cfg.cpp
@@ -270,11 +270,11 @@ void CFVisitor::visit(const ImperativeForFlow *v) {
       v, const_cast<Var *>(v->getVar()), v->getStep()));
   loopNext->successors_insert(loopCheck);
 
-  loopStack.emplace_back(loopCheck, end, v->getId(), tryCatchStack.size() - 1);
+  loopStack.emplace_back(loopNext, end, v->getId(), tryCatchStack.size() - 1);
   auto *loopBody = graph->newBlock("forBody", true);
   loopCheck->successors_insert(loopBody);
   process(v->getBody());
-  graph->getCurrentBlock()->successors_insert(loopCheck);
+  graph->getCurrentBlock()->successors_insert(loopNext);
   loopStack.pop_back();
 
   graph->setCurrentBlock(end);
-- 
2.43.0


From 047f17d8b0dd4c4b2c69730300cb922c0dcb0877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 18/29] fix: jumps and exceptions leave a finally branch
 through its end

---
 codon/cir/analyze/dataflow/cfg.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/codon/cir/analyze/dataflow/cfg.cpp b/codon/cir/analyze/dataflow/cfg.cpp
index 8b49b20..e145bbe 100644
--- a/codon/cir/analyze/dataflow/cfg.cpp
+++ b/codon/cir/analyze/dataflow/cfg.cpp
@@ -287,12 +287,17 @@ void CFVisitor::visit(const TryCatchFlow *v) {
   analyze::dataflow::CFBlock *finally = nullptr;
   if (v->getElse())
     else_ = graph->newBlock("tcElse");
-  if (v->getFinally())
+  // jumps and exceptions leave through the end of the finally branch, which may
+  // itself span several blocks
+  analyze::dataflow::CFBlock *finallyEnd = nullptr;
+  if (v->getFinally()) {
     finally = graph->newBlock("tcFinally");
+    finallyEnd = graph->newBlock("tcFinallyEnd");
+  }
 
   auto *dst = finally ? finally : end;
 
-  tryCatchStack.emplace_back(routeBlock, finally);
+  tryCatchStack.emplace_back(routeBlock, finallyEnd);
   process(v->getBody());
   graph->getCurrentBlock()->successors_insert(else_ ? else_ : dst);
 
@@ -317,13 +322,14 @@ void CFVisitor::visit(const TryCatchFlow *v) {
   if (v->getFinally()) {
     graph->setCurrentBlock(finally);
     process(v->getFinally());
-    graph->getCurrentBlock()->successors_insert(end);
+    graph->getCurrentBlock()->successors_insert(finallyEnd);
+    finallyEnd->successors_insert(end);
     routeBlock->successors_insert(finally);
   }
 
   if (!tryCatchStack.empty()) {
-    if (finally)
-      finally->successors_insert(tryCatchStack.back().first);
+    if (finallyEnd)
+      finallyEnd->successors_insert(tryCatchStack.back().first);
     else
       routeBlock->successors_insert(tryCatchStack.back().first);
   }
-- 
2.43.0


From e84d871240a3ba13cac40eb684a78738a26470fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:08 +0000
Subject: [PATCH 19/29] fix: callback AST visitors reach the expressions of
 f-strings

---
 codon/parser/visitors/visitor.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/codon/parser/visitors/visitor.h b/codon/parser/visitors/visitor.h
index f31cdd2..f65dc6c 100644
--- a/codon/parser/visitors/visitor.h
+++ b/codon/parser/visitors/visitor.h
@@ -109,7 +109,11 @@ public:
   void visit(BoolExpr *expr) override {}
   void visit(IntExpr *expr) override {}
   void visit(FloatExpr *expr) override {}
-  void visit(StringExpr *expr) override {}
+  void visit(StringExpr *expr) override {
+    for (auto &s : expr->strings)
+      if (s.expr)
+        transform(s.expr);
+  }
   void visit(IdExpr *expr) override {}
   void visit(StarExpr *expr) override { transform(expr->expr); }
   void visit(KeywordStarExpr *expr) override { transform(expr->expr); }
@@ -315,6 +319,11 @@ public:
  */
 struct ReplacingCallbackASTVisitor : public CallbackASTVisitor<Expr *, Stmt *> {
 public:
+  void visit(StringExpr *expr) override {
+    for (auto &s : expr->strings)
+      if (s.expr)
+        s.expr = transform(s.expr);
+  }
   void visit(StarExpr *expr) override { expr->expr = transform(expr->expr); }
   void visit(KeywordStarExpr *expr) override { expr->expr = transform(expr->expr); }
   void visit(TupleExpr *expr) override {
-- 
2.43.0


From f239c60758bd4436091da622b2ae9e43f6967d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:08 +0000
Subject: [PATCH 20/29] fix: a clean clone of an f-string cleans its
 expressions

---
 codon/parser/ast/expr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codon/parser/ast/expr.cpp b/codon/parser/ast/expr.cpp
index 2fe4ea5..6409b06 100644
--- a/codon/parser/ast/expr.cpp
+++ b/codon/parser/ast/expr.cpp
@@ -168,7 +168,7 @@ StringExpr::StringExpr(std::string value, std::string prefix)
 StringExpr::StringExpr(const StringExpr &expr, bool clean)
     : AcceptorExtend(expr, clean), strings(expr.strings) {
   for (auto &s : strings)
-    s.expr = ast::clone(s.expr);
+    s.expr = ast::clone(s.expr, clean);
 }
 std::string StringExpr::toString(int) const {
   std::vector<std::string> s;
-- 
2.43.0


From e2d7768eba9ac98bbbff05049c3f5d5d7a9a221c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:08 +0000
Subject: [PATCH 21/29] fix: a clean clone of an except clause is clean

---
 codon/parser/ast/stmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codon/parser/ast/stmt.cpp b/codon/parser/ast/stmt.cpp
index de8056a..57f3eec 100644
--- a/codon/parser/ast/stmt.cpp
+++ b/codon/parser/ast/stmt.cpp
@@ -272,7 +272,7 @@ std::string ImportStmt::toString(int indent) const {
 ExceptStmt::ExceptStmt(const std::string &var, Expr *exc, Stmt *suite)
     : var(var), exc(exc), suite(SuiteStmt::wrap(suite)) {}
 ExceptStmt::ExceptStmt(const ExceptStmt &stmt, bool clean)
-    : AcceptorExtend(stmt), var(stmt.var), exc(ast::clone(stmt.exc, clean)),
+    : AcceptorExtend(stmt, clean), var(stmt.var), exc(ast::clone(stmt.exc, clean)),
       suite(ast::clone(stmt.suite, clean)) {}
 std::string ExceptStmt::toString(int indent) const {
   std::string pad = indent > 0 ? ("\n" + std::string(indent + INDENT_SIZE, ' ')) : " ";
-- 
2.43.0


From f97a71b019f39288f448c7e54a3d2747b7083157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:08 +0000
Subject: [PATCH 22/29] fix: a cloned while statement keeps its goto variable

---
 codon/parser/ast/stmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codon/parser/ast/stmt.cpp b/codon/parser/ast/stmt.cpp
index 57f3eec..a3162d6 100644
--- a/codon/parser/ast/stmt.cpp
+++ b/codon/parser/ast/stmt.cpp
@@ -150,7 +150,7 @@ WhileStmt::WhileStmt(Expr *cond, Stmt *suite, Stmt *elseSuite)
 WhileStmt::WhileStmt(const WhileStmt &stmt, bool clean)
     : AcceptorExtend(stmt, clean), cond(ast::clone(stmt.cond, clean)),
       suite(ast::clone(stmt.suite, clean)),
-      elseSuite(ast::clone(stmt.elseSuite, clean)) {}
+      elseSuite(ast::clone(stmt.elseSuite, clean)), gotoVar(stmt.gotoVar) {}
 std::string WhileStmt::toString(int indent) const {
   if (indent == -1)
     return wrapStmt(fmt::format("(while {})", cond->toString(indent)));
-- 
2.43.0


From 9ef1f6c3967963a9ab8dd969ff17620ad459a001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:08 +0000
Subject: [PATCH 23/29] fix: cloned parameters and arguments keep their source
 location

---
 codon/parser/ast/expr.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/codon/parser/ast/expr.cpp b/codon/parser/ast/expr.cpp
index 6409b06..e1b12fc 100644
--- a/codon/parser/ast/expr.cpp
+++ b/codon/parser/ast/expr.cpp
@@ -70,7 +70,8 @@ std::string Param::toString(int indent) const {
                      !isValue() ? " #:generic" : "");
 }
 Param Param::clone(bool clean) const {
-  return Param(name, ast::clone(type, clean), ast::clone(defaultValue, clean), status);
+  return Param(getSrcInfo(), name, ast::clone(type, clean),
+               ast::clone(defaultValue, clean), status);
 }
 std::pair<int, std::string> Param::getNameWithStars() const {
   int stars = 0;
@@ -410,7 +411,7 @@ std::string IndexExpr::toString(int indent) const {
 }
 
 CallArg CallArg::clone(bool clean) const {
-  return CallArg{name, ast::clone(value, clean)};
+  return CallArg{getSrcInfo(), name, ast::clone(value, clean)};
 }
 CallArg::CallArg(const SrcInfo &info, std::string name, Expr *value)
     : name(std::move(name)), value(value) {
-- 
2.43.0


From 327ee9fb1c66a9321edad10d1703fbf6ca49740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:47 +0000
Subject: [PATCH 24/29] fix: escaped characters have two hexadecimal digits

---
 codon/parser/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codon/parser/common.cpp b/codon/parser/common.cpp
index 8f81c9d..5221d5c 100644
--- a/codon/parser/common.cpp
+++ b/codon/parser/common.cpp
@@ -172,7 +172,7 @@ std::string escape(const std::string &str) {
     case '\\': r += "\\\\"; break;
     default:
       if (c < 32 || c >= 127)
-        r += fmt::format("\\x{:x}", c);
+        r += fmt::format("\\x{:02x}", c);
       else
         r += c;
     }
-- 
2.43.0


From 0d6d8ec2cf808acf007dd53a4b502754a25f5fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:59 +0000
Subject: [PATCH 25/29] fix: name union types after their members

Union types had no name, so all of them counted as the same type and types derived from different unions (optionals, pointers, ...) were shared.
---
 codon/cir/types/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codon/cir/types/types.h b/codon/cir/types/types.h
index 1d5ac40..e0414ac 100644
--- a/codon/cir/types/types.h
+++ b/codon/cir/types/types.h
@@ -564,7 +564,7 @@ public:
   /// Constructs a UnionType.
   /// @param types the alternative types (must be sorted by caller)
   explicit UnionType(std::vector<types::Type *> types)
-      : AcceptorExtend(), types(std::move(types)) {}
+      : AcceptorExtend(getInstanceName(types)), types(std::move(types)) {}
 
   const_iterator begin() const { return types.begin(); }
   const_iterator end() const { return types.end(); }
-- 
2.43.0


From 030fee8c0db8484aeeab975dc895a625551e9011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:37 +0000
Subject: [PATCH 26/29] fix: run finally when returning from an except or else
 part

getInnermostTryCatch() only looked at the try-stack, which no longer holds
a try statement while its except and else parts are generated; a return
there left the function without running the statement's finally part.
---
 codon/cir/llvm/llvisitor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codon/cir/llvm/llvisitor.cpp b/codon/cir/llvm/llvisitor.cpp
index 189f59e..feaad25 100644
--- a/codon/cir/llvm/llvisitor.cpp
+++ b/codon/cir/llvm/llvisitor.cpp
@@ -1477,6 +1477,12 @@ void LLVMVisitor::exitCatch() {
 }
 
 LLVMVisitor::TryCatchData *LLVMVisitor::getInnermostTryCatch() {
+  // 'except' and 'else' parts are no longer in the try-stack, but still have to go
+  // through their 'finally'
+  if (!finally.empty() &&
+      (trycatch.empty() ||
+       finally.back().sequenceNumber > trycatch.back().sequenceNumber))
+    return &finally.back();
   return trycatch.empty() ? nullptr : &trycatch.back();
 }
 
-- 
2.43.0


From 35dddc984d721fb629859f3cde743fbf49f53cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:58 +0000
Subject: [PATCH 27/29] fix: keep the value of an inlined return without result
 variable

---
 codon/cir/util/inlining.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codon/cir/util/inlining.cpp b/codon/cir/util/inlining.cpp
index b953982..365a9d0 100644
--- a/codon/cir/util/inlining.cpp
+++ b/codon/cir/util/inlining.cpp
@@ -59,6 +59,8 @@ public:
     auto *rep = M->N<SeriesFlow>(v);
     if (var) {
       rep->push_back(M->N<AssignInstr>(v, var, cv.clone(v->getValue())));
+    } else if (v->getValue()) {
+      rep->push_back(cv.clone(v->getValue()));
     }
     if (aggressive)
       rep->push_back(M->N<BreakInstr>(v, implicitLoop));
-- 
2.43.0


From f7d0b2aaeff1b8438458bf8df6b7112981659883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:58 +0000
Subject: [PATCH 28/29] fix: leave the loop around an inlined body that falls
 off its end

---
 codon/cir/util/inlining.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/codon/cir/util/inlining.cpp b/codon/cir/util/inlining.cpp
index 365a9d0..d79ee18 100644
--- a/codon/cir/util/inlining.cpp
+++ b/codon/cir/util/inlining.cpp
@@ -113,8 +113,7 @@ InlineResult inlineFunction(Func *func, std::vector<Value *> args, bool aggressi
     auto *loopBody = M->N<SeriesFlow>(info);
     implicit = M->N<WhileFlow>(info, M->getBool(true), loopBody);
     loopBody->push_back(clonedBody);
-    if (!retVal)
-      loopBody->push_back(M->N<BreakInstr>(info, implicit));
+    loopBody->push_back(M->N<BreakInstr>(info, implicit));
   }
 
   ReturnReplacer rr(implicit, retVal, rv.needLoop, cv);
-- 
2.43.0


From 2526ec6eec0bf1505def4595451726f3c8057ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:58 +0000
Subject: [PATCH 29/29] fix: do not rename the caller's variables in arguments
 of an inlined call

---
 codon/cir/util/inlining.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codon/cir/util/inlining.cpp b/codon/cir/util/inlining.cpp
index d79ee18..a617ee5 100644
--- a/codon/cir/util/inlining.cpp
+++ b/codon/cir/util/inlining.cpp
@@ -82,13 +82,15 @@ InlineResult inlineFunction(Func *func, std::vector<Value *> args, bool aggressi
   auto *M = bodied->getModule();
 
   util::CloneVisitor cv(M);
+  // the arguments belong to the caller, which may be the inlined function itself
+  util::CloneVisitor argCv(M);
   auto *newFlow = M->N<SeriesFlow>(info, bodied->getName() + "_inlined");
 
   std::vector<Var *> newVars;
   auto arg_it = bodied->arg_begin();
   for (auto i = 0; i < args.size(); ++i) {
     newVars.push_back(cv.forceClone(*arg_it++));
-    newFlow->push_back(M->N<AssignInstr>(info, newVars.back(), cv.clone(args[i])));
+    newFlow->push_back(M->N<AssignInstr>(info, newVars.back(), argCv.clone(args[i])));
   }
   for (auto *v : *bodied) {
     newVars.push_back(cv.forceClone(v));
-- 
2.43.0

