From 4be11db9763f9cfb7cbe3363f66269f3a9e93694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 01/48] fix: run all finalizers before releasing heap chunks

The destructor of the heap released every page directly after running its finalizers.
Finalizing an object of a later page then accessed the type object in storage that
was already freed.
---
 src/vm/heap/heap.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index 7b31865..024155b 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -187,16 +187,19 @@ Heap::Heap(size_t page_size, HeapAllocator& alloc)
     , free_(layout_) {}
 
 Heap::~Heap() {
-    for (auto page : pages_) {
+    // Invoke all finalizers before releasing any storage: finalizing an object requires
+    // access to its type, which may be located in a different chunk.
+    for (auto page : pages_)
         page->invoke_finalizers();
+    for (auto lob : lobs_)
+        lob->invoke_finalizer();
+
+    for (auto page : pages_)
         Page::destroy(page);
-    }
     pages_.clear();
 
-    for (auto lob : lobs_) {
-        lob->invoke_finalizer();
+    for (auto lob : lobs_)
         LargeObject::destroy(lob);
-    }
     lobs_.clear();
 }
 
-- 
2.43.0


From 7e91654039088b18291c566d71ed47220670851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 02/48] fix: do not terminate the block of an unreachable
 optional path twice

Compiling an optional path whose remainder is left by a jump, e.g. `a?.b(return)`,
failed with an internal error.
---
 src/compiler/ir_gen/compile_expr.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index 9887fe7..4731739 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -186,8 +186,11 @@ InstResult PathCompiler::compile(NotNull<AstExpr*> topmost) {
 
     // If an end block was created due to optional accesses, continue in that block. Otherwise,
     // we must still be in the original block.
+    // The chain's current block has already been terminated if the remainder of the path is unreachable,
+    // e.g. in `a?.b(return)`.
     if (end_block_) {
-        chain_bb_.end(Terminator::make_jump(*end_block_));
+        if (chain_result)
+            chain_bb_.end(Terminator::make_jump(*end_block_));
         ctx().seal(*end_block_);
         chain_bb_.assign(*end_block_);
     }
-- 
2.43.0


From 5697e1ed232fb1f1f313f9d122d674242e790d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 03/48] fix: code after an assert statement is reachable if its
 message is not

The continuation of the assert statement was dropped (or the compilation failed with an
internal error) if the message expression left the function or the loop.
---
 src/compiler/ir_gen/compile_stmt.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/compiler/ir_gen/compile_stmt.cpp b/src/compiler/ir_gen/compile_stmt.cpp
index dd2b473..ee4bdfd 100644
--- a/src/compiler/ir_gen/compile_stmt.cpp
+++ b/src/compiler/ir_gen/compile_stmt.cpp
@@ -66,10 +66,12 @@ OkResult StmtCompiler::visit_assert_stmt(NotNull<AstAssertStmt*> stmt, CurrentBl
 
             return nested.compile_value(Constant::make_null());
         }();
-        if (!message_result)
-            return message_result.failure();
 
-        nested.end(Terminator::make_assert_fail(expr_inst, *message_result, result().exit()));
+        // Evaluating the message may leave the function or loop, the assertion itself is not reached in that
+        // case. This does not affect the code following a successful assertion.
+        if (message_result)
+            nested.end(
+                Terminator::make_assert_fail(expr_inst, *message_result, result().exit()));
     }
 
     bb.assign(ok_block);
-- 
2.43.0


From 72facc16be96146836637f7097c805375fc66da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 04/48] fix: keep discarded operations on constants that fail
 at runtime

Operations on constants that could not be evaluated at compile time (such as `1 / 0`) were
removed if their result was not used, instead of raising the expected panic.
---
 .../ir_passes/dead_code_elimination.cpp       | 22 ++++++-------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/compiler/ir_passes/dead_code_elimination.cpp b/src/compiler/ir_passes/dead_code_elimination.cpp
index 8ac8c59..bdc6173 100644
--- a/src/compiler/ir_passes/dead_code_elimination.cpp
+++ b/src/compiler/ir_passes/dead_code_elimination.cpp
@@ -34,10 +34,8 @@ static bool has_side_effects(const LValue& value) {
 ///
 /// TODO: The implementation is very conservative regarding unary and binary operators,
 /// they can probably be optimized in some situations.
-static bool has_side_effects(const Value& value, const Function& func) {
+static bool has_side_effects(const Value& value) {
     struct Visitor {
-        const Function& func;
-
         bool visit_read(const Value::Read& r) { return has_side_effects(r.target); }
 
         bool visit_write(const Value::Write&) { return true; }
@@ -55,17 +53,11 @@ static bool has_side_effects(const Value& value, const Function& func) {
 
         bool visit_outer_environment(const Value::OuterEnvironment&) { return false; }
 
-        bool visit_binary_op(const Value::BinaryOp& b) {
-            const auto& lhs = func[b.left];
-            const auto& rhs = func[b.right];
-            return lhs.value().type() != ValueType::Constant
-                   || rhs.value().type() != ValueType::Constant;
-        }
+        // Operations on constants are evaluated at compile time. If such an operation still exists, the evaluation
+        // failed and the operation raises an error at runtime (e.g. a division by zero).
+        bool visit_binary_op(const Value::BinaryOp&) { return true; }
 
-        bool visit_unary_op(const Value::UnaryOp& u) {
-            const auto& operand = func[u.operand];
-            return operand.value().type() != ValueType::Constant;
-        }
+        bool visit_unary_op(const Value::UnaryOp&) { return true; }
 
         bool visit_call(const Value::Call&) { return true; }
 
@@ -105,7 +97,7 @@ static bool has_side_effects(const Value& value, const Function& func) {
         bool visit_nop(const Value::Nop&) { return false; }
     };
 
-    return value.visit(Visitor{func});
+    return value.visit(Visitor{});
 }
 
 void eliminate_dead_code(Function& func) {
@@ -127,7 +119,7 @@ void eliminate_dead_code(Function& func) {
 
         for (const auto& inst_id : block.insts()) {
             const auto& inst = func[inst_id];
-            if (has_side_effects(inst.value(), func))
+            if (has_side_effects(inst.value()))
                 visit(inst_id);
         }
 
-- 
2.43.0


From fba888c4eca7de0cbe415ea311a6f60cde93a39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 05/48] fix: code following a block that cannot be left
 normally is unreachable

The code after an if expression with two branches that end in jumps and after a loop without
condition and break was compiled as if it was reachable, which failed with an internal error
when a variable was read there.
---
 src/compiler/ir_gen/compile_expr.cpp | 4 ++++
 src/compiler/ir_gen/compile_stmt.cpp | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index 4731739..80bc3cc 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -589,6 +589,10 @@ InstResult ExprCompiler::visit_if_expr(NotNull<AstIfExpr*> expr, CurrentBlock& b
     ctx().seal(end_block);
     bb.assign(end_block);
 
+    // The end block cannot be reached if both branches are left by a jump.
+    if (!then_result && !else_result)
+        return then_result;
+
     if (!has_value) {
         TIRO_DEBUG_ASSERT(can_elide(), "Must be able to elide value generation.");
         return InstId();
diff --git a/src/compiler/ir_gen/compile_stmt.cpp b/src/compiler/ir_gen/compile_stmt.cpp
index ee4bdfd..b9d42e3 100644
--- a/src/compiler/ir_gen/compile_stmt.cpp
+++ b/src/compiler/ir_gen/compile_stmt.cpp
@@ -192,7 +192,13 @@ OkResult StmtCompiler::visit_for_stmt(NotNull<AstForStmt*> stmt, CurrentBlock& b
     ctx().seal(cond_block);
     ctx().seal(end_block);
     bb.assign(end_block);
-    return cond_result;
+    if (!cond_result)
+        return cond_result;
+
+    // A loop without a condition is only left by "break".
+    if (ctx().result()[end_block].predecessor_count() == 0)
+        return unreachable;
+    return ok;
 }
 
 OkResult StmtCompiler::visit_for_each_stmt(NotNull<AstForEachStmt*> stmt, CurrentBlock& bb) {
-- 
2.43.0


From 1a082d0c58c68b620dc714b0995aa68e6bb52a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 06/48] fix: resolve the register size of mutually dependent
 phi functions

Compilation of valid programs failed with an internal error (or undefined behaviour in release
builds) if the phi functions of nested control flow depended on each other.
---
 src/compiler/bytecode_gen/alloc_registers.cpp | 59 +++++++++++--------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/src/compiler/bytecode_gen/alloc_registers.cpp b/src/compiler/bytecode_gen/alloc_registers.cpp
index 8a9dea7..0212882 100644
--- a/src/compiler/bytecode_gen/alloc_registers.cpp
+++ b/src/compiler/bytecode_gen/alloc_registers.cpp
@@ -9,6 +9,7 @@
 #include "compiler/ir_passes/visit.hpp"
 
 #include "absl/container/flat_hash_map.h"
+#include "absl/container/flat_hash_set.h"
 
 #include <algorithm>
 
@@ -122,8 +123,7 @@ private:
     std::vector<PhiLink> phi_links_;
 
     // Sizes (in registers) for phi functions, determined at first
-    // argument site. 0 is used as a sentinel value to mark an active
-    // recursive call (0 is never a valid value in this map).
+    // argument site.
     absl::flat_hash_map<InstId, u32, UseHasher> phi_sizes_;
 
     // Implements parallel copy -> sequential copy algorithm.
@@ -454,37 +454,48 @@ std::optional<u32> RegisterAllocator::allocated_size_recursive(InstId inst_id) {
     case ValueType::GetAggregateMember:
         return 0;
     case ValueType::Phi: {
-        if (auto pos = phi_sizes_.find(inst_id); pos != phi_sizes_.end()) {
-            u32 size = pos->second;
-            if (size != 0)
-                return size;
+        if (auto pos = phi_sizes_.find(inst_id); pos != phi_sizes_.end())
+            return pos->second;
 
-            // size 0 -> recursive call. This breaks the otherwise infinite loop.
-            return {};
-        }
-
-        auto& phi = value.as_phi();
-
-        if (!phi.operands())
+        if (!value.as_phi().operands())
             return 0;
 
-        const auto& operands = func_[phi.operands()];
-        phi_sizes_[inst_id] = 0;
+        // Phi functions may depend on each other (e.g. in loops): visit all phi functions reachable through operands,
+        // at least one of them must have a normal value as an operand. All those phi functions have the same size.
         std::optional<u32> resolved;
-        for (size_t i = 0, n = operands.size(); i < n; ++i) {
-            auto arg_size = allocated_size_realized(operands.get(i));
-            if (arg_size) {
-                if (resolved) {
-                    TIRO_DEBUG_ASSERT(*resolved == *arg_size,
+        absl::flat_hash_set<InstId, UseHasher> visited{inst_id};
+        std::vector<InstId> pending{inst_id};
+        while (!pending.empty()) {
+            auto phi_id = pending.back();
+            pending.pop_back();
+
+            auto& phi = func_[phi_id].value().as_phi();
+            if (!phi.operands())
+                continue;
+
+            const auto& operands = func_[phi.operands()];
+            for (size_t i = 0, n = operands.size(); i < n; ++i) {
+                auto operand_id = operands.get(i);
+                std::optional<u32> operand_size;
+                if (func_[operand_id].value().type() != ValueType::Phi) {
+                    operand_size = allocated_size_realized(operand_id);
+                } else if (auto pos = phi_sizes_.find(operand_id); pos != phi_sizes_.end()) {
+                    operand_size = pos->second;
+                } else if (visited.insert(operand_id).second) {
+                    pending.push_back(operand_id);
+                }
+
+                if (operand_size) {
+                    TIRO_DEBUG_ASSERT(!resolved || *resolved == *operand_size,
                         "Phi operands must not resolve to different sizes.");
-                } else {
-                    resolved = arg_size;
+                    resolved = operand_size;
                 }
             }
         }
 
-        TIRO_DEBUG_ASSERT(resolved, "Register size of phi function could not be resolved.");
-        phi_sizes_[inst_id] = *resolved;
+        TIRO_CHECK(resolved, "Register size of phi function could not be resolved.");
+        for (const auto& phi_id : visited)
+            phi_sizes_[phi_id] = *resolved;
         return *resolved;
     }
     default:
-- 
2.43.0


From f3c6b5e2cab94405f31561d692f3d7e84eed15a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 07/48] fix: iterator invalidation when sealing blocks with
 incomplete phis

Patching the incomplete phi functions of a block may insert entries for other blocks into the
same hash map, which corrupted memory while compiling nested loops.
---
 src/compiler/ir_gen/func.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index a5d12c8..ed235be 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -457,14 +457,15 @@ void FunctionIRGen::seal(BlockId block_id) {
     TIRO_DEBUG_ASSERT(!block->sealed(), "Block was already sealed.");
 
     // Patch incomplete phis. See [BB+13], Section 2.3.
+    // Adding the operands may register additional incomplete phis for other (unsealed) blocks, the entry
+    // must therefore be extracted from the map before it is being processed.
     if (auto pos = incomplete_phis_.find(block_id); pos != incomplete_phis_.end()) {
+        auto phis = std::move(pos->second);
+        incomplete_phis_.erase(pos);
 
-        auto& phis = pos->second;
         for (const auto& [symbol, phi] : phis) {
             add_phi_operands(symbol, phi, block_id);
         }
-
-        incomplete_phis_.erase(pos);
     }
 
     block->sealed(true);
-- 
2.43.0


From 90a2e1759a349b91d6731ca1fb2f86d2ac2dea49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:46 +0000
Subject: [PATCH 08/48] fix: keep closure environments used by deferred
 expressions in reserved registers

---
 src/compiler/bytecode_gen/alloc_registers.cpp | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/compiler/bytecode_gen/alloc_registers.cpp b/src/compiler/bytecode_gen/alloc_registers.cpp
index 0212882..1185a67 100644
--- a/src/compiler/bytecode_gen/alloc_registers.cpp
+++ b/src/compiler/bytecode_gen/alloc_registers.cpp
@@ -195,11 +195,11 @@ RegisterAllocator::RegisterAllocator(const Function& func)
     , locations_(func.block_count(), func.inst_count()) {}
 
 void RegisterAllocator::run() {
-    preallocate_registers();
-
     doms_.compute();
     liveness_.compute();
 
+    preallocate_registers();
+
     // DFS in dominator order.
     // Walk through the cfg in the order induced by the dominator tree (depth first) and
     // perform greedy coloring for all insts encountered on the way.
@@ -251,6 +251,22 @@ void RegisterAllocator::preallocate_registers() {
             locations_.set_preallocated_location(
                 symbol_id, BytecodeLocation(Span(allocated.data(), regs)));
         }
+
+        // Values used by the handler that were defined before the handler became active (i.e. closure environments).
+        // Handlers can be reached from any instruction, so those values must keep their registers.
+        for (const auto& inst_id : liveness_.live_in_values(handler_id)) {
+            if (locations_.contains(inst_id))
+                continue;
+
+            std::array<BytecodeRegister, BytecodeLocation::max_size()> allocated{};
+            const u32 regs = allocated_size(inst_id);
+            TIRO_DEBUG_ASSERT(regs <= allocated.size(), "Too many registers.");
+            for (u32 i = 0; i < regs; ++i) {
+                allocated[i] = BytecodeRegister(total++);
+            }
+
+            locations_.set(inst_id, BytecodeLocation(Span(allocated.data(), regs)));
+        }
     }
 
     locations_.total_registers(total);
@@ -394,6 +410,9 @@ BytecodeLocation RegisterAllocator::allocate_registers(InstId def_id, RegisterCo
         return locations_.get_preallocated_location(*symbol_id);
     }
 
+    if (locations_.contains(def_id))
+        return locations_.get(def_id);
+
     constexpr u32 buffer_size = BytecodeLocation::max_size();
 
     std::array<BytecodeRegister, buffer_size> allocated{};
@@ -411,7 +430,8 @@ void RegisterAllocator::deallocate_registers(
         return;
 
     for (auto reg : loc) {
-        deallocate_register(reg, ctx);
+        if (reg.value() >= preallocated_)
+            deallocate_register(reg, ctx);
     }
 }
 
-- 
2.43.0


From df1c38a0b5bee601510ab57055b4fda8802c5b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:47 +0000
Subject: [PATCH 09/48] fix: code following a jump out of a scope is still
 covered by deferred statements

---
 src/compiler/ir_gen/compile_expr.cpp | 7 ++++++-
 src/compiler/ir_gen/func.cpp         | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index 80bc3cc..4da485d 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -1,6 +1,7 @@
 #include "compiler/ir_gen/compile.hpp"
 
 #include "common/fix.hpp"
+#include "common/scope_guards.hpp"
 #include "compiler/ast/ast.hpp"
 #include "compiler/ir/function.hpp"
 #include "compiler/ir_gen/func.hpp"
@@ -425,7 +426,11 @@ InstResult ExprCompiler::visit_binary_expr(NotNull<AstBinaryExpr*> expr, Current
 }
 
 InstResult ExprCompiler::visit_block_expr(NotNull<AstBlockExpr*> expr, CurrentBlock& bb) {
-    // Statements in this block expr can register deferred expressions.
+    // Statements in this block expr can register deferred expressions (and their exception handlers), they only apply
+    // to this block. Handlers must also be restored if the end of the block is not reachable.
+    ScopeExit restore_handler = [&, handler = ctx().current_handler()] {
+        ctx().current_handler(handler);
+    };
     auto scope = ctx().enter_scope();
     auto scope_id = ctx().current_scope_id(); // TODO Awkward api
 
diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index ed235be..bc861b2 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -395,6 +395,9 @@ OkResult FunctionIRGen::compile_scope_exit(RegionId scope_id, CurrentBlock& bb)
 OkResult FunctionIRGen::compile_scope_exit_until(RegionId target, CurrentBlock& bb) {
     TIRO_DEBUG_ASSERT(!target || target.value() < active_regions_.size(), "Invalid target index.");
 
+    // The exit paths use the handlers of the scopes they leave. Code following this jump still belongs to the current scope.
+    ScopeSuccess restore_handler = [&, handler = current_handler()] { current_handler(handler); };
+
     // inclusive index:
     const size_t until = target ? target.value() + 1 : 0;
     for (size_t i = active_regions_.size(); i-- > until;) {
-- 
2.43.0


From 3ec46f4c134e91c0b67b20c9548801cfe7d6232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 10/48] fix: evaluate deferred expressions in the context of
 their own scope

Deferred expressions that were executed because of a jump from within nested loops used
the closure environment, the jump targets and the pending deferred expressions of these loops.
---
 src/compiler/ir_gen/func.cpp | 53 ++++++++++++++++++++++++++++++++----
 src/compiler/ir_gen/func.hpp |  3 ++
 2 files changed, 51 insertions(+), 5 deletions(-)

diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index bc861b2..198bb62 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -367,6 +367,38 @@ OkResult FunctionIRGen::compile_scope_exit(RegionId scope_id, CurrentBlock& bb)
     ScopeSuccess restore_processed = [&] { get_scope().processed = initial_processed; };
     ScopeSuccess restore_handler = [&] { current_handler(original_handler); };
 
+    if (initial_processed == deferred_count)
+        return ok;
+
+    // Deferred expressions are evaluated in the context of their own scope, even if they are executed because of
+    // a jump from within nested loops or scopes. Regions and environments nested in this scope are hidden meanwhile.
+    std::vector<Region> nested_regions;
+    while (active_regions_.back_key() != scope_id) {
+        nested_regions.push_back(std::move(active_regions_.back()));
+        active_regions_.pop_back();
+    }
+    std::vector<EnvContext> nested_envs;
+    while (!local_env_stack_.empty() && local_env_stack_.back().region_count > active_regions_.size()) {
+        nested_envs.push_back(local_env_stack_.back());
+        local_env_stack_.pop_back();
+    }
+    ScopeSuccess restore_nested = [&] {
+        for (; !nested_regions.empty(); nested_regions.pop_back())
+            active_regions_.push_back(std::move(nested_regions.back()));
+        for (; !nested_envs.empty(); nested_envs.pop_back())
+            local_env_stack_.push_back(nested_envs.back());
+    };
+
+    auto enclosing_loop = [&]() {
+        for (size_t i = scope_id.value(); i-- > 0;) {
+            if (active_regions_[RegionId(i)].type() == RegionType::Loop)
+                return RegionId(i);
+        }
+        return RegionId();
+    };
+    auto restore_scope = replace_value(current_scope_, scope_id);
+    auto restore_loop = replace_value(current_loop_, enclosing_loop());
+
     for (u32 i = deferred_count - initial_processed; i-- > 0;) {
         AstExpr* expr = nullptr;
         BlockId handler;
@@ -659,15 +691,26 @@ void FunctionIRGen::enter_env(ScopeId parent_scope_id, CurrentBlock& bb) {
 
     const u32 captured_count = checked_cast<u32>(captured.size());
     const ClosureEnvId parent = current_env();
-    const ClosureEnvId env = envs_->make(ClosureEnv(parent, checked_cast<u32>(captured.size())));
-    for (u32 i = 0; i < captured.size(); ++i) {
-        envs_->write_location(captured[i], ClosureEnvLocation(env, i));
-    }
+    const ClosureEnvId env = [&]() {
+        // Deferred expressions are compiled multiple times: nested functions (which are compiled only once) expect
+        // to find their captured symbols in the same environment every time.
+        if (auto existing = envs_->read_location(captured[0])) {
+            TIRO_DEBUG_ASSERT((*envs_)[existing->env].parent() == parent,
+                "The environment must always be opened in the same context.");
+            return existing->env;
+        }
+
+        auto new_env = envs_->make(ClosureEnv(parent, captured_count));
+        for (u32 i = 0; i < captured.size(); ++i) {
+            envs_->write_location(captured[i], ClosureEnvLocation(new_env, i));
+        }
+        return new_env;
+    }();
 
     const auto parent_inst = parent ? get_env(parent) : bb.compile_value(Constant::make_null());
     const auto env_inst = bb.compile_value(
         Value::make_make_environment(parent_inst, captured_count));
-    local_env_stack_.push_back({env, parent_scope_id});
+    local_env_stack_.push_back({env, parent_scope_id, active_regions_.size()});
     local_env_locations_[env] = env_inst;
 }
 
diff --git a/src/compiler/ir_gen/func.hpp b/src/compiler/ir_gen/func.hpp
index c45a9a3..f04e286 100644
--- a/src/compiler/ir_gen/func.hpp
+++ b/src/compiler/ir_gen/func.hpp
@@ -108,6 +108,9 @@ private:
 struct EnvContext {
     ClosureEnvId env;
     ScopeId starter;
+
+    // Number of active regions when the environment was opened.
+    size_t region_count;
 };
 
 /// Compilation options for expressions.
-- 
2.43.0


From 60d2eeb771646aafa6b483dd7c43475b9fd723f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 11/48] fix: close gaps in the hash table index when a key is
 removed

---
 src/vm/objects/hash_table.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vm/objects/hash_table.cpp b/src/vm/objects/hash_table.cpp
index 25da8e6..95e097e 100644
--- a/src/vm/objects/hash_table.cpp
+++ b/src/vm/objects/hash_table.cpp
@@ -466,6 +466,8 @@ void HashTable::remove_from_index(Layout* data, size_t erased_bucket) {
                 "Backshift invariant: distance does not get worse.");
             indices[erased_bucket] = index;
             indices[current_bucket] = ST::empty_value;
+            erased_bucket = current_bucket;
+            current_bucket = next_bucket(data, current_bucket);
         } else {
             break;
         }
-- 
2.43.0


From 2acdb0af5a93846cd9c0b3a42ea1fc14245d1595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:47 +0000
Subject: [PATCH 12/48] fix: negative even powers of -1 are 1

---
 src/compiler/ir_gen/const_eval.cpp | 2 +-
 src/vm/math.cpp                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/ir_gen/const_eval.cpp b/src/compiler/ir_gen/const_eval.cpp
index 0692143..6467e98 100644
--- a/src/compiler/ir_gen/const_eval.cpp
+++ b/src/compiler/ir_gen/const_eval.cpp
@@ -229,7 +229,7 @@ static EvalResult eval_power(const Constant& lhs, const Constant& rhs) {
         if (a == 0 && b < 0)
             return EvalResult::make_divide_by_zero();
         if (b < 0)
-            return make_int(a == 1 || a == -1 ? a : 0);
+            return make_int(a == 1 ? 1 : a == -1 ? (b & 1 ? -1 : 1) : 0);
 
         // https://stackoverflow.com/a/101613
         SafeInt base = a;
diff --git a/src/vm/math.cpp b/src/vm/math.cpp
index aff551b..4f63963 100644
--- a/src/vm/math.cpp
+++ b/src/vm/math.cpp
@@ -84,7 +84,7 @@ struct pow_op {
             return TIRO_FORMAT_EXCEPTION(ctx, "cannot raise integer 0 to a negative power");
 
         if (b < 0)
-            return a == 1 || a == -1 ? a : 0;
+            return a == 1 ? 1 : a == -1 ? (b & 1 ? -1 : 1) : 0;
 
         // https://stackoverflow.com/a/101613
         i64 result = 1;
-- 
2.43.0


From 910360c4693ac5689877dd5882a0fb0d32483683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:47 +0000
Subject: [PATCH 13/48] fix: negation overflows for the smallest integer, not
 for -1

---
 src/vm/math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/math.cpp b/src/vm/math.cpp
index 4f63963..cd001db 100644
--- a/src/vm/math.cpp
+++ b/src/vm/math.cpp
@@ -181,7 +181,7 @@ Fallible<Number> unary_minus(Context& ctx, Handle<Value> v) {
 
     if (v->is<Integer>()) {
         i64 iv = v.must_cast<Integer>()->value();
-        if (TIRO_UNLIKELY(iv == -1))
+        if (TIRO_UNLIKELY(iv == std::numeric_limits<i64>::min()))
             return TIRO_FORMAT_EXCEPTION(ctx, "integer overflow in unary minus");
         return static_cast<Number>(ctx.get_integer(-iv));
     }
-- 
2.43.0


From 9951d9892bb5fe37a4a1efd2199e7febdb10a73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 14/48] fix: compare numbers exactly and never order nan

---
 src/common/math.hpp                | 18 ++++++++++
 src/compiler/ir_gen/const_eval.cpp | 25 +++++++-------
 src/vm/interpreter.cpp             |  8 +++--
 src/vm/math.cpp                    | 53 +++++++++++++++++++++---------
 src/vm/math.hpp                    |  5 ++-
 src/vm/objects/value.cpp           | 10 ++----
 6 files changed, 79 insertions(+), 40 deletions(-)

diff --git a/src/common/math.hpp b/src/common/math.hpp
index fece8b3..0c827a4 100644
--- a/src/common/math.hpp
+++ b/src/common/math.hpp
@@ -232,6 +232,24 @@ constexpr bool checked_mod(T& a, T b) {
     return checked_mod(a, b, a);
 }
 
+/// Compares the integer `a` with the float `b` without loss of precision.
+/// Returns a value less than, equal to or greater than 0.
+/// \pre `b` is not NaN.
+inline int compare_exact(i64 a, f64 b) {
+    constexpr f64 limit = 9223372036854775808.0; // 2^63
+    if (b >= limit)
+        return -1;
+    if (b < -limit)
+        return 1;
+
+    const i64 truncated = static_cast<i64>(b);
+    if (a != truncated)
+        return a < truncated ? -1 : 1;
+
+    const f64 fraction = b - static_cast<f64>(truncated);
+    return fraction > 0 ? -1 : (fraction < 0 ? 1 : 0);
+}
+
 /// Casts the `from` argument to to type `To`. Throws an error if the value
 /// cannot be represented with the target type.
 /// Only supports integers.
diff --git a/src/compiler/ir_gen/const_eval.cpp b/src/compiler/ir_gen/const_eval.cpp
index 6467e98..bfd94d2 100644
--- a/src/compiler/ir_gen/const_eval.cpp
+++ b/src/compiler/ir_gen/const_eval.cpp
@@ -1,5 +1,6 @@
 #include "compiler/ir_gen/const_eval.hpp"
 
+#include "common/math.hpp"
 #include "common/safe_int.hpp"
 
 #include <cmath>
@@ -103,14 +104,7 @@ static i64 to_signed(u64 v) {
 }
 
 static bool i64_f64_equal(i64 lhs, f64 rhs) {
-    if (!std::isfinite(rhs))
-        return false;
-
-    // Check whether converting the float to int and back preserves the value.
-    // If that is the case, the two integers can be equal.
-    i64 rhs_int = rhs;
-    f64 rhs_roundtrip = rhs_int;
-    return rhs_roundtrip == rhs && lhs == rhs_int;
+    return !std::isnan(rhs) && compare_exact(lhs, rhs) == 0;
 }
 
 static bool is_equal(const Constant& lhs, const Constant& rhs) {
@@ -304,12 +298,17 @@ static EvalResult numeric_compare(const Constant& lhs, const Constant& rhs, Test
     if (!is_numeric(lhs) || !is_numeric(rhs))
         return EvalResult::make_type_error();
 
-    // Equality is special (do not contradict operators == and !=).
-    if (is_equal(lhs, rhs)) {
-        return make_bool(test(0));
-    }
+    // Comparisons with nan are always false.
+    if ((is_float(lhs) && std::isnan(get_float(lhs)))
+        || (is_float(rhs) && std::isnan(get_float(rhs))))
+        return make_bool(false);
+
+    if (is_integer(lhs) && is_float(rhs))
+        return make_bool(test(compare_exact(get_int(lhs), get_float(rhs))));
+
+    if (is_float(lhs) && is_integer(rhs))
+        return make_bool(test(-compare_exact(get_int(rhs), get_float(lhs))));
 
-    // Apply normal int / float promotion rules.
     auto op = [&](auto a, auto b) -> EvalResult {
         return make_bool(test(a < b ? -1 : (a > b ? 1 : 0)));
     };
diff --git a/src/vm/interpreter.cpp b/src/vm/interpreter.cpp
index 1c3a9c4..7c3d672 100644
--- a/src/vm/interpreter.cpp
+++ b/src/vm/interpreter.cpp
@@ -212,8 +212,12 @@ BytecodeInterpreter::BytecodeInterpreter(
         if (result.has_exception())            \
             return unwind(result.exception()); \
                                                \
-        auto cmp = result.value();             \
-        target.set(ctx_.get_boolean((expr)));  \
+        bool holds = false;                    \
+        if (auto ordering = result.value()) {  \
+            auto cmp = *ordering;              \
+            holds = (expr);                    \
+        }                                      \
+        target.set(ctx_.get_boolean(holds));   \
     } while (0)
 
 void BytecodeInterpreter::run() {
diff --git a/src/vm/math.cpp b/src/vm/math.cpp
index cd001db..d8f2d11 100644
--- a/src/vm/math.cpp
+++ b/src/vm/math.cpp
@@ -5,6 +5,8 @@
 #include "vm/objects/primitives.hpp"
 #include "vm/type_system.hpp"
 
+#include <cmath>
+
 namespace tiro::vm {
 
 namespace {
@@ -212,30 +214,49 @@ static void unwrap_number(Value v, Callback&& cb) {
     }
 };
 
-Fallible<int> compare(Context& ctx, Handle<Value> a, Handle<Value> b) {
+Fallible<std::optional<int>> compare(Context& ctx, Handle<Value> a, Handle<Value> b) {
     if (a->is_null()) {
         if (b->is_null())
-            return 0;
-        return -1;
+            return std::optional(0);
+        return std::optional(-1);
     }
     if (b->is_null())
-        return 1;
-
-    auto cmp = [](auto lhs, auto rhs) {
-        if (lhs > rhs)
-            return 1;
-        if (lhs < rhs)
-            return -1;
-        return 0;
+        return std::optional(1);
+
+    auto cmp = [](auto lhs, auto rhs) -> std::optional<int> {
+        using L = decltype(lhs);
+        using R = decltype(rhs);
+
+        if constexpr (std::is_same_v<L, f64>) {
+            if (std::isnan(lhs))
+                return {};
+        }
+        if constexpr (std::is_same_v<R, f64>) {
+            if (std::isnan(rhs))
+                return {};
+        }
+
+        if constexpr (std::is_same_v<L, i64> && std::is_same_v<R, f64>) {
+            return compare_exact(lhs, rhs);
+        } else if constexpr (std::is_same_v<L, f64> && std::is_same_v<R, i64>) {
+            return -compare_exact(rhs, lhs);
+        } else {
+            return lhs > rhs ? 1 : (lhs < rhs ? -1 : 0);
+        }
     };
 
+    bool defined = false;
     std::optional<int> result;
-    unwrap_number(
-        *a, [&](auto lhs) { unwrap_number(*b, [&](auto rhs) { result = cmp(lhs, rhs); }); });
-
-    if (TIRO_UNLIKELY(!result))
+    unwrap_number(*a, [&](auto lhs) {
+        unwrap_number(*b, [&](auto rhs) {
+            defined = true;
+            result = cmp(lhs, rhs);
+        });
+    });
+
+    if (TIRO_UNLIKELY(!defined))
         return comparison_not_defined_exception(ctx, a, b);
-    return *result;
+    return result;
 }
 
 } // namespace tiro::vm
diff --git a/src/vm/math.hpp b/src/vm/math.hpp
index 0b87caf..c3cb543 100644
--- a/src/vm/math.hpp
+++ b/src/vm/math.hpp
@@ -4,6 +4,8 @@
 #include "common/defs.hpp"
 #include "vm/fwd.hpp"
 
+#include <optional>
+
 namespace tiro::vm {
 
 // Implements the binary arithmetic operations.
@@ -25,7 +27,8 @@ Fallible<Integer> bitwise_not(Context& ctx, Handle<Value> v);
 //  - < 0 iff a < b
 //  - = 0 iff a == b
 //  - > 0 iff a > b
-Fallible<int> compare(Context& ctx, Handle<Value> a, Handle<Value> b);
+//  - an empty optional if a and b are not ordered (at least one of them is nan)
+Fallible<std::optional<int>> compare(Context& ctx, Handle<Value> a, Handle<Value> b);
 
 } // namespace tiro::vm
 
diff --git a/src/vm/objects/value.cpp b/src/vm/objects/value.cpp
index f955c6b..857b398 100644
--- a/src/vm/objects/value.cpp
+++ b/src/vm/objects/value.cpp
@@ -1,5 +1,6 @@
 #include "vm/objects/value.hpp"
 
+#include "common/math.hpp"
 #include "vm/hash.hpp"
 #include "vm/objects/all.hpp"
 
@@ -203,14 +204,7 @@ size_t hash(Value v) {
 }
 
 static bool int_float_equal(i64 lhs, f64 rhs) {
-    if (!std::isfinite(rhs))
-        return false;
-
-    // Check whether converting the float to int and back preserves the value.
-    // If that is the case, the two integers can be equal.
-    i64 rhs_int = rhs;
-    f64 rhs_roundtrip = rhs_int;
-    return rhs_roundtrip == rhs && lhs == rhs_int;
+    return !std::isnan(rhs) && compare_exact(lhs, rhs) == 0;
 }
 
 // TODO think about float / integer equality.
-- 
2.43.0


From 2ae803df396bd7afc96c7b4f25162f6dca282e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:44 +0000
Subject: [PATCH 15/48] fix: equal integers and floats have equal hash values

---
 src/vm/hash.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/vm/hash.cpp b/src/vm/hash.cpp
index cbd3fba..221df09 100644
--- a/src/vm/hash.cpp
+++ b/src/vm/hash.cpp
@@ -57,9 +57,13 @@ static_assert(std::numeric_limits<f64>::has_quiet_NaN,
 static constexpr f64 canonic_nan = std::numeric_limits<f64>::quiet_NaN();
 
 size_t float_hash(f64 data) {
-    // Ensure that both -0.0 and 0.0 hash to the same value.
-    if (data == 0)
-        return fnv1a(raw_span<u64>(0));
+    // Floats that are equal to an integer (including -0.0 and 0.0) must have the same hash value as that integer.
+    constexpr f64 limit = 9223372036854775808.0; // 2^63
+    if (data >= -limit && data < limit) {
+        const i64 truncated = static_cast<i64>(data);
+        if (static_cast<f64>(truncated) == data)
+            return integer_hash(static_cast<u64>(truncated));
+    }
 
     // All nans hash to the same value to enable their usage in hash tables.
     if (std::isnan(data))
-- 
2.43.0


From 81f5c6fcd63f101ea40c9ab00de2e3089b30446b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 16/48] fix: do not replace -0.0 by 0.0

---
 src/compiler/ir_gen/compile_value.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler/ir_gen/compile_value.cpp b/src/compiler/ir_gen/compile_value.cpp
index 69b41fc..11f032a 100644
--- a/src/compiler/ir_gen/compile_value.cpp
+++ b/src/compiler/ir_gen/compile_value.cpp
@@ -158,6 +158,10 @@ InstId ValueCompiler::visit_observe_assign(const Value::ObserveAssign& obs) {
 }
 
 InstId ValueCompiler::visit_constant(const Constant& constant) {
+    // 0.0 and -0.0 compare equal but must not be replaced by each other.
+    if (constant.type() == ConstantType::Float && constant.as_float().value == 0)
+        return define_new(constant);
+
     const auto key = ComputedValue::make_constant(constant);
     return memoize_value(key, [&]() { return define_new(constant); });
 }
-- 
2.43.0


From 301886584a2773c16c8144dba06536301575f3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 17/48] fix: implement bitwise and shift operators at runtime

---
 src/vm/interpreter.cpp | 14 +++++++++----
 src/vm/math.cpp        | 46 ++++++++++++++++++++++++++++++++++++++++++
 src/vm/math.hpp        |  7 +++++++
 3 files changed, 63 insertions(+), 4 deletions(-)

diff --git a/src/vm/interpreter.cpp b/src/vm/interpreter.cpp
index 7c3d672..d209bbd 100644
--- a/src/vm/interpreter.cpp
+++ b/src/vm/interpreter.cpp
@@ -468,15 +468,21 @@ void BytecodeInterpreter::run() {
         case BytecodeOp::UNeg:
             TIRO_UNOP(unary_minus);
             break;
-
-        // TODO
         case BytecodeOp::LSh:
+            TIRO_BINOP(left_shift);
+            break;
         case BytecodeOp::RSh:
+            TIRO_BINOP(right_shift);
+            break;
         case BytecodeOp::BAnd:
+            TIRO_BINOP(bitwise_and);
+            break;
         case BytecodeOp::BOr:
+            TIRO_BINOP(bitwise_or);
+            break;
         case BytecodeOp::BXor:
-            TIRO_ERROR("instruction not implemented yet: {}", op);
-
+            TIRO_BINOP(bitwise_xor);
+            break;
         case BytecodeOp::BNot:
             TIRO_UNOP(bitwise_not);
             break;
diff --git a/src/vm/math.cpp b/src/vm/math.cpp
index d8f2d11..5d59b8e 100644
--- a/src/vm/math.cpp
+++ b/src/vm/math.cpp
@@ -193,6 +193,52 @@ Fallible<Number> unary_minus(Context& ctx, Handle<Value> v) {
     TIRO_UNREACHABLE("Invalid number type");
 }
 
+template<typename Operation>
+static Fallible<Integer>
+bitwise_op(Context& ctx, std::string_view name, Handle<Value> a, Handle<Value> b, Operation&& op) {
+    if (TIRO_UNLIKELY(!a->is<Integer>()))
+        return invalid_operand_type_exception(ctx, name, a);
+    if (TIRO_UNLIKELY(!b->is<Integer>()))
+        return invalid_operand_type_exception(ctx, name, b);
+
+    Fallible<i64> result = op(a.must_cast<Integer>()->value(), b.must_cast<Integer>()->value());
+    if (result.has_exception())
+        return result.exception();
+    return ctx.get_integer(result.value());
+}
+
+template<typename Operation>
+static Fallible<Integer>
+shift_op(Context& ctx, std::string_view name, Handle<Value> a, Handle<Value> b, Operation&& op) {
+    return bitwise_op(ctx, name, a, b, [&](i64 value, i64 shift) -> Fallible<i64> {
+        if (TIRO_UNLIKELY(shift < 0))
+            return TIRO_FORMAT_EXCEPTION(ctx, "negative shift");
+        if (TIRO_UNLIKELY(shift > 63))
+            return TIRO_FORMAT_EXCEPTION(ctx, "integer overflow in shift");
+        return static_cast<i64>(op(static_cast<u64>(value), static_cast<u64>(shift)));
+    });
+}
+
+Fallible<Integer> left_shift(Context& ctx, Handle<Value> a, Handle<Value> b) {
+    return shift_op(ctx, "<<"sv, a, b, [](u64 value, u64 shift) { return value << shift; });
+}
+
+Fallible<Integer> right_shift(Context& ctx, Handle<Value> a, Handle<Value> b) {
+    return shift_op(ctx, ">>"sv, a, b, [](u64 value, u64 shift) { return value >> shift; });
+}
+
+Fallible<Integer> bitwise_and(Context& ctx, Handle<Value> a, Handle<Value> b) {
+    return bitwise_op(ctx, "&"sv, a, b, [](i64 lhs, i64 rhs) -> Fallible<i64> { return lhs & rhs; });
+}
+
+Fallible<Integer> bitwise_or(Context& ctx, Handle<Value> a, Handle<Value> b) {
+    return bitwise_op(ctx, "|"sv, a, b, [](i64 lhs, i64 rhs) -> Fallible<i64> { return lhs | rhs; });
+}
+
+Fallible<Integer> bitwise_xor(Context& ctx, Handle<Value> a, Handle<Value> b) {
+    return bitwise_op(ctx, "^"sv, a, b, [](i64 lhs, i64 rhs) -> Fallible<i64> { return lhs ^ rhs; });
+}
+
 Fallible<Integer> bitwise_not(Context& ctx, Handle<Value> v) {
     if (TIRO_UNLIKELY(!v->is<Integer>()))
         return invalid_operand_type_exception(ctx, "~"sv, v);
diff --git a/src/vm/math.hpp b/src/vm/math.hpp
index c3cb543..b957258 100644
--- a/src/vm/math.hpp
+++ b/src/vm/math.hpp
@@ -20,6 +20,13 @@ Fallible<Number> pow(Context& ctx, Handle<Value> a, Handle<Value> b);
 Fallible<Number> unary_plus(Context& ctx, Handle<Value> v);
 Fallible<Number> unary_minus(Context& ctx, Handle<Value> v);
 
+// Implements the binary bitwise operations.
+Fallible<Integer> left_shift(Context& ctx, Handle<Value> a, Handle<Value> b);
+Fallible<Integer> right_shift(Context& ctx, Handle<Value> a, Handle<Value> b);
+Fallible<Integer> bitwise_and(Context& ctx, Handle<Value> a, Handle<Value> b);
+Fallible<Integer> bitwise_or(Context& ctx, Handle<Value> a, Handle<Value> b);
+Fallible<Integer> bitwise_xor(Context& ctx, Handle<Value> a, Handle<Value> b);
+
 Fallible<Integer> bitwise_not(Context& ctx, Handle<Value> v);
 
 // Implements comparison between two objects.
-- 
2.43.0


From 2b9fa8bbd8c7181c90307f984c852100aab07924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 18/48] fix: float literals denote the nearest value

---
 src/compiler/syntax/grammar/literals.cpp | 86 +++++++++++++-----------
 1 file changed, 46 insertions(+), 40 deletions(-)

diff --git a/src/compiler/syntax/grammar/literals.cpp b/src/compiler/syntax/grammar/literals.cpp
index ec685d7..764a8ef 100644
--- a/src/compiler/syntax/grammar/literals.cpp
+++ b/src/compiler/syntax/grammar/literals.cpp
@@ -4,6 +4,9 @@
 #include "common/text/code_point_range.hpp"
 
 #include <algorithm>
+#include <clocale>
+#include <cstdlib>
+#include <string>
 
 namespace tiro {
 
@@ -101,66 +104,69 @@ std::optional<i64> parse_integer_value(
     return {};
 }
 
-// TODO: Algorithm is not very correct nor fast
 std::optional<f64>
 parse_float_value(std::string_view float_source, FunctionRef<void(std::string_view)> error_sink) {
     const auto [base, has_explicit_base] = read_base(float_source);
-    const f64 base_inv = 1.0 / base;
     (void) has_explicit_base;
 
-    f64 int_value = 0;
-    f64 frac_value = 0;
-    bool has_digit = false;
-
-    auto p = float_source.begin();
-    const auto e = float_source.end();
-
-    // Integer part
-    for (; p != e; ++p) {
-        auto c = *p;
+    std::string int_digits;
+    std::string frac_digits;
+    bool seen_dot = false;
+    for (auto c : float_source) {
         if (c == '_')
             continue;
-        if (c == '.')
-            break;
 
-        auto digit = to_digit(c, base);
-        if (TIRO_UNLIKELY(!digit)) {
+        if (c == '.' && !seen_dot) {
+            seen_dot = true;
+            continue;
+        }
+
+        if (TIRO_UNLIKELY(!to_digit(c, base))) {
             error_sink("invalid digit for this base");
             return {};
         }
+        (seen_dot ? frac_digits : int_digits) += c;
+    }
 
-        has_digit = true;
-        int_value *= base;
-        int_value += *digit;
+    if (int_digits.empty() && frac_digits.empty()) {
+        error_sink("expected at least one digit");
+        return {};
     }
 
-    // Float part
-    if (p != e && *p == '.') {
-        ++p;
+    // Binary and octal digits are converted to hex digits, which are understood by strtod().
+    if (base == 2 || base == 8) {
+        auto to_hex = [base = base](std::string_view digits, bool fraction) {
+            std::string bits;
+            for (auto c : digits) {
+                const int digit = *to_digit(c, base);
+                for (int bit = (base == 8 ? 4 : 1); bit > 0; bit >>= 1)
+                    bits += (digit & bit) ? '1' : '0';
+            }
 
-        f64 factor = base_inv;
-        for (; p != e; ++p) {
-            auto c = *p;
-            if (c == '_')
-                continue;
+            const size_t padding = (4 - bits.size() % 4) % 4;
+            bits.insert(fraction ? bits.size() : 0, padding, '0');
 
-            auto digit = to_digit(c, base);
-            if (TIRO_UNLIKELY(!digit)) {
-                error_sink("invalid digit for this base");
-                return {};
+            std::string hex;
+            for (size_t i = 0; i < bits.size(); i += 4) {
+                int digit = 0;
+                for (size_t j = i; j < i + 4; ++j)
+                    digit = digit * 2 + (bits[j] - '0');
+                hex += "0123456789abcdef"[digit];
             }
-
-            has_digit = true;
-            frac_value += factor * *digit;
-            factor *= base_inv;
-        }
+            return hex;
+        };
+        int_digits = to_hex(int_digits, false);
+        frac_digits = to_hex(frac_digits, true);
     }
 
-    if (!has_digit) {
-        error_sink("expected at least one digit");
-        return {};
+    // strtod() rounds correctly, but its decimal point depends on the current locale.
+    std::string number = base == 10 ? "" : "0x";
+    number += int_digits;
+    if (!frac_digits.empty()) {
+        number += std::localeconv()->decimal_point;
+        number += frac_digits;
     }
-    return int_value + frac_value;
+    return std::strtod(number.c_str(), nullptr);
 }
 
 std::optional<u32>
-- 
2.43.0


From a5091b48dd7f0e7f74fdb544c68cef7198813d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 19/48] fix: terminate unreachable blocks at the end of a
 function

Functions that end with an if expression whose branches are both left by a jump or with a loop
that is never left failed to compile with an internal error in debug builds.
---
 src/compiler/ir_gen/compile_expr.cpp |  4 +++-
 src/compiler/ir_gen/compile_stmt.cpp |  8 ++++----
 src/compiler/ir_gen/func.cpp         | 10 +++++++---
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index 4da485d..350edd1 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -595,8 +595,10 @@ InstResult ExprCompiler::visit_if_expr(NotNull<AstIfExpr*> expr, CurrentBlock& b
     bb.assign(end_block);
 
     // The end block cannot be reached if both branches are left by a jump.
-    if (!then_result && !else_result)
+    if (!then_result && !else_result) {
+        bb.end(Terminator::make_never(ctx().result().exit()));
         return then_result;
+    }
 
     if (!has_value) {
         TIRO_DEBUG_ASSERT(can_elide(), "Must be able to elide value generation.");
diff --git a/src/compiler/ir_gen/compile_stmt.cpp b/src/compiler/ir_gen/compile_stmt.cpp
index b9d42e3..c16c3dc 100644
--- a/src/compiler/ir_gen/compile_stmt.cpp
+++ b/src/compiler/ir_gen/compile_stmt.cpp
@@ -192,12 +192,12 @@ OkResult StmtCompiler::visit_for_stmt(NotNull<AstForStmt*> stmt, CurrentBlock& b
     ctx().seal(cond_block);
     ctx().seal(end_block);
     bb.assign(end_block);
-    if (!cond_result)
-        return cond_result;
 
     // A loop without a condition is only left by "break".
-    if (ctx().result()[end_block].predecessor_count() == 0)
+    if (ctx().result()[end_block].predecessor_count() == 0) {
+        bb.end(Terminator::make_never(ctx().result().exit()));
         return unreachable;
+    }
     return ok;
 }
 
@@ -285,7 +285,7 @@ OkResult StmtCompiler::visit_while_stmt(NotNull<AstWhileStmt*> stmt, CurrentBloc
         auto cond_result = compile_loop_cond(stmt->cond(), body_block, end_block, cond_bb);
         if (!cond_result) {
             ctx().seal(cond_block);
-            bb.assign(cond_block);
+            bb.assign(cond_bb.id());
             return cond_result;
         }
     }
diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index 198bb62..52a05ec 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -249,9 +249,13 @@ void FunctionIRGen::enter_compilation(FunctionRef<void(CurrentBlock& bb)> compil
 
     compile_body(bb);
 
-    TIRO_DEBUG_ASSERT(result_[bb.id()].terminator().type() == TerminatorType::Return,
-        "The last block must perform a return.");
-    TIRO_DEBUG_ASSERT(result_[bb.id()].terminator().as_return().target == result_.exit(),
+    [[maybe_unused]] const auto& last = result_[bb.id()].terminator();
+    TIRO_DEBUG_ASSERT(
+        last.type() == TerminatorType::Return || last.type() == TerminatorType::Never,
+        "The last block must perform a return or must not be reachable.");
+    TIRO_DEBUG_ASSERT((last.type() == TerminatorType::Never ? last.as_never().target
+                                                            : last.as_return().target)
+                          == result_.exit(),
         "The last block at function level must always return to the exit "
         "block.");
 
-- 
2.43.0


From 99542c1d140f56c35e6cee24c5d89e29cc895830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:08 +0000
Subject: [PATCH 20/48] fix: local functions can be referenced by their name

The name of a function expression was declared as a constant in the surrounding scope, but the
function was never stored there.
---
 src/compiler/ir_gen/compile_expr.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index 350edd1..7232fe4 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -526,13 +526,20 @@ InstResult ExprCompiler::visit_func_expr(NotNull<AstFuncExpr*> expr, CurrentBloc
     auto env = ctx().current_env();
 
     ModuleMemberId func_id = ctx().module_gen().add_function(decl, envs, env);
-    if (env) {
-        auto env_id = bb.compile_env(env);
-        return bb.compile_value(Value::make_make_closure(env_id, func_id));
-    }
+    auto func_inst = [&] {
+        if (env) {
+            auto env_id = bb.compile_env(env);
+            return bb.compile_value(Value::make_make_closure(env_id, func_id));
+        }
+
+        auto lvalue = LValue::make_module(func_id);
+        return bb.compile_value(Value::make_read(lvalue));
+    }();
+
+    // Functions can be referenced by their name (if present).
+    if (decl->name())
+        bb.compile_assign(symbols().get_decl(decl->id()), func_inst);
 
-    auto lvalue = LValue::make_module(func_id);
-    auto func_inst = bb.compile_value(Value::make_read(lvalue));
     return func_inst;
 }
 
-- 
2.43.0


From 0b8379f261e9bfb50d950ba40bfe365e450f1029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:16 +0000
Subject: [PATCH 21/48] fix: reject break and continue in functions that are
 nested in loops

A loop outside of the function satisfied the check and compiling the function failed with an
internal error.
---
 src/compiler/semantics/structure_check.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/semantics/structure_check.cpp b/src/compiler/semantics/structure_check.cpp
index b5e0b60..3511488 100644
--- a/src/compiler/semantics/structure_check.cpp
+++ b/src/compiler/semantics/structure_check.cpp
@@ -115,6 +115,8 @@ void StructureChecker::visit_binding(NotNull<AstBinding*> binding) {
 
 void StructureChecker::visit_func_decl(NotNull<AstFuncDecl*> decl) {
     auto reset_func = enter_func(decl);
+    // Loops around a function cannot be left from within that function.
+    auto reset_loop = replace_value(current_loop_, static_cast<AstNode*>(nullptr));
     visit_decl(decl);
 }
 
-- 
2.43.0


From 1133e26fa11c73b2a8ed53d6723c7d1a78bbf9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:23 +0000
Subject: [PATCH 22/48] fix: report source code that is nested too deeply
 instead of overflowing the stack

---
 src/compiler/syntax/fwd.hpp          |  1 +
 src/compiler/syntax/grammar/expr.cpp | 15 ++++++++++++++
 src/compiler/syntax/parser.cpp       | 30 +++++++++++++++++++++++++++-
 src/compiler/syntax/parser.hpp       | 28 ++++++++++++++++++++++++++
 4 files changed, 73 insertions(+), 1 deletion(-)

diff --git a/src/compiler/syntax/fwd.hpp b/src/compiler/syntax/fwd.hpp
index 8388f6f..01bae50 100644
--- a/src/compiler/syntax/fwd.hpp
+++ b/src/compiler/syntax/fwd.hpp
@@ -19,6 +19,7 @@ class ParserEvent;
 
 class ParserEventConsumer;
 
+class NestingGuard;
 class Parser;
 class Marker;
 class CompletedMarker;
diff --git a/src/compiler/syntax/grammar/expr.cpp b/src/compiler/syntax/grammar/expr.cpp
index 23ec2d3..fb63b24 100644
--- a/src/compiler/syntax/grammar/expr.cpp
+++ b/src/compiler/syntax/grammar/expr.cpp
@@ -99,6 +99,10 @@ std::optional<CompletedMarker> parse_expr_no_block(Parser& p, const TokenSet& re
 
 std::optional<CompletedMarker>
 parse_expr(Parser& p, int bp, ExprFlags flags, const TokenSet& recovery) {
+    NestingGuard nesting(p);
+    if (!nesting.enter())
+        return {};
+
     auto lhs = parse_prefix_expr(p, flags, recovery);
     if (!lhs)
         return {};
@@ -111,6 +115,9 @@ parse_expr(Parser& p, int bp, ExprFlags flags, const TokenSet& recovery) {
         if (op->precedence < bp)
             break; // Upper call will handle lower precedence
 
+        if (!nesting.enter())
+            break;
+
         lhs = parse_infix_expr(p, *lhs, *op, flags, recovery);
     }
 
@@ -286,6 +293,10 @@ CompletedMarker parse_block_expr_unchecked(Parser& p, [[maybe_unused]] const Tok
     TIRO_DEBUG_ASSERT(p.at(TokenType::LeftBrace), "Not at the start of a block expression.");
 
     auto m = p.start();
+    NestingGuard nesting(p);
+    if (!nesting.enter())
+        return m.complete(SyntaxType::Error);
+
     p.advance();
     while (!p.at_any({TokenType::Eof, TokenType::RightBrace})) {
         if (p.accept(TokenType::Semicolon))
@@ -362,6 +373,10 @@ CompletedMarker parse_if_expr(Parser& p, const TokenSet& recovery) {
     TIRO_DEBUG_ASSERT(p.at(TokenType::KwIf), "Not at the start of an if expression.");
 
     auto m = p.start();
+    NestingGuard nesting(p);
+    if (!nesting.enter())
+        return m.complete(SyntaxType::Error);
+
     p.advance();
 
     parse_condition(p, recovery.union_with(TokenType::LeftBrace));
diff --git a/src/compiler/syntax/parser.cpp b/src/compiler/syntax/parser.cpp
index c84d016..5f6f982 100644
--- a/src/compiler/syntax/parser.cpp
+++ b/src/compiler/syntax/parser.cpp
@@ -13,6 +13,13 @@ static const TokenSet SKIP_CONSUME_ON_ERROR = {
     TokenType::StringBlockEnd,
 };
 
+// Maximum nesting depth of expressions and blocks.
+static constexpr size_t MAX_DEPTH = 2000;
+
+// Maximum number of inspections of the same token. Every level may inspect the current token
+// a few times when it is left.
+static constexpr size_t MAX_INSPECTIONS = 64 * MAX_DEPTH;
+
 Parser::Parser(std::string_view source, Span<const Token> tokens)
     : source_(source)
     , tokens_(tokens) {
@@ -102,17 +109,38 @@ void Parser::error_recover(std::string message, const TokenSet& recovery) {
 }
 
 void Parser::error(std::string message) {
+    // Follow-up errors
+    if (aborted_)
+        return;
+
     events_.push_back(ParserEvent::make_error(std::move(message)));
 }
 
 void Parser::on_inspection() {
-    if (++inspections_ >= 1024) {
+    if (++inspections_ >= MAX_INSPECTIONS) {
         TIRO_ERROR(
             "The parser appears to be stuck. Please report this issue together with a source code "
             "snippet that reproduces the bug.");
     }
 }
 
+void Parser::nested_too_deeply() {
+    error("the source code is nested too deeply");
+    aborted_ = true;
+    while (pos_ < tokens_.size())
+        advance();
+}
+
+bool NestingGuard::enter() {
+    if (parser_.depth_ >= MAX_DEPTH) {
+        parser_.nested_too_deeply();
+        return false;
+    }
+
+    ++parser_.depth_;
+    return true;
+}
+
 Marker Parser::start() {
     size_t start_pos = events_.size();
     events_.push_back(ParserEvent::make_tombstone());
diff --git a/src/compiler/syntax/parser.hpp b/src/compiler/syntax/parser.hpp
index becf71e..f5adcfe 100644
--- a/src/compiler/syntax/parser.hpp
+++ b/src/compiler/syntax/parser.hpp
@@ -81,17 +81,45 @@ public:
 private:
     friend Marker;
     friend CompletedMarker;
+    friend NestingGuard;
 
     void on_inspection();
 
+    // Reports an error and skips the rest of the source code.
+    void nested_too_deeply();
+
 private:
     std::string_view source_;
     Span<const Token> tokens_;
     size_t pos_ = 0;
     size_t inspections_ = 0; // number of repeated inspections for the current position
+    size_t depth_ = 0;       // current nesting depth of expressions and blocks
+    bool aborted_ = false;   // true if the source code is nested too deeply
     std::vector<ParserEvent> events_;
 };
 
+/// Limits the nesting depth of the syntax tree. The parser and all compilation stages traverse
+/// the tree recursively, i.e. source code that is nested too deeply would overflow the stack.
+class NestingGuard final {
+public:
+    explicit NestingGuard(Parser& parser)
+        : parser_(parser)
+        , initial_depth_(parser.depth_) {}
+
+    ~NestingGuard() { parser_.depth_ = initial_depth_; }
+
+    NestingGuard(const NestingGuard&) = delete;
+    NestingGuard& operator=(const NestingGuard&) = delete;
+
+    /// Enters another level, which is left when the guard is destroyed.
+    /// Returns false (and reports an error) if the source code is nested too deeply.
+    bool enter();
+
+private:
+    Parser& parser_;
+    size_t initial_depth_;
+};
+
 class Marker final {
 public:
     /// Marks the current syntax node as completed.
-- 
2.43.0


From 58d4a19934b96bf97ac0c406b29de110bdbe4d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 23/48] fix: reject invalid utf8 and operators at the end of a
 file with an error message

---
 src/compiler/compiler.cpp     |  3 ++-
 src/compiler/syntax/lexer.cpp | 12 ++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/compiler/compiler.cpp b/src/compiler/compiler.cpp
index 609b2b5..62b72b4 100644
--- a/src/compiler/compiler.cpp
+++ b/src/compiler/compiler.cpp
@@ -138,7 +138,8 @@ SyntaxTree Compiler::parse_file(std::string_view source) {
     };
 
     if (auto res = validate_utf8(source); !res.ok) {
-        SyntaxTree tree(source);
+        const Token eof(TokenType::Eof, SourceRange::from_std_offset(0));
+        SyntaxTree tree = parse(Span<const Token>(&eof, 1)); // empty file
         tree.errors().push_back(SyntaxError(
             "The file contains invalid utf8.", SourceRange::from_std_offset(res.error_offset)));
         return tree;
diff --git a/src/compiler/syntax/lexer.cpp b/src/compiler/syntax/lexer.cpp
index cac32ef..2497784 100644
--- a/src/compiler/syntax/lexer.cpp
+++ b/src/compiler/syntax/lexer.cpp
@@ -221,7 +221,7 @@ std::optional<TokenType> Lexer::lex_operator() {
         TIRO_OP(':', return TokenType::Colon;)
         TIRO_OP(';', return TokenType::Semicolon;)
         TIRO_OP('?', {
-            switch (current()) {
+            switch (ahead(0).value_or(0)) {
                 TIRO_OP('.', return TokenType::QuestionDot;)
                 TIRO_OP('(', return TokenType::QuestionLeftParen;)
                 TIRO_OP('[', return TokenType::QuestionLeftBracket;)
@@ -231,7 +231,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('+', {
-            switch (current()) {
+            switch (ahead(0).value_or(0)) {
                 TIRO_OP('+', return TokenType::PlusPlus;)
                 TIRO_OP('=', return TokenType::PlusEquals;)
             default:
@@ -239,7 +239,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('-', {
-            switch (current()) {
+            switch (ahead(0).value_or(0)) {
                 TIRO_OP('-', return TokenType::MinusMinus;)
                 TIRO_OP('=', return TokenType::MinusEquals;)
             default:
@@ -247,7 +247,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('*', {
-            switch (current()) {
+            switch (ahead(0).value_or(0)) {
                 TIRO_OP('*', {
                     if (accept('='))
                         return TokenType::StarStarEquals;
@@ -291,7 +291,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             return TokenType::Equals;
         })
         TIRO_OP('<', {
-            switch (current()) {
+            switch (ahead(0).value_or(0)) {
                 TIRO_OP('=', return TokenType::LessEquals;)
                 TIRO_OP('<', return TokenType::LeftShift;)
             default:
@@ -299,7 +299,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('>', {
-            switch (current()) {
+            switch (ahead(0).value_or(0)) {
                 TIRO_OP('=', return TokenType::GreaterEquals;)
                 TIRO_OP('>', return TokenType::RightShift;)
             default:
-- 
2.43.0


From 5c0bcd1222a2567f383b8caaea76fd804bccacb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:47 +0000
Subject: [PATCH 24/48] fix: limit the number of copies of nested deferred
 expressions

---
 src/compiler/ir_gen/compile_stmt.cpp |  2 +-
 src/compiler/ir_gen/func.cpp         | 22 ++++++++++++++++++++--
 src/compiler/ir_gen/func.hpp         | 10 ++++++++++
 3 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/compiler/ir_gen/compile_stmt.cpp b/src/compiler/ir_gen/compile_stmt.cpp
index c16c3dc..266c07d 100644
--- a/src/compiler/ir_gen/compile_stmt.cpp
+++ b/src/compiler/ir_gen/compile_stmt.cpp
@@ -87,7 +87,7 @@ OkResult StmtCompiler::visit_defer_stmt(NotNull<AstDeferStmt*> stmt, CurrentBloc
     auto handler_block = ctx().make_handler_block(strings().insert("defer-panic"));
     [&] {
         CurrentBlock nested = ctx().make_current(handler_block);
-        auto expr_result = nested.compile_expr(expr, ExprOptions::MaybeInvalid);
+        auto expr_result = ctx().compile_deferred_expr(expr, nested);
         if (!expr_result)
             return;
 
diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index 52a05ec..53b47ea 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -352,6 +352,24 @@ InstId FunctionIRGen::compile_env(ClosureEnvId env, [[maybe_unused]] BlockId blo
     return get_env(env);
 }
 
+OkResult FunctionIRGen::compile_deferred_expr(NotNull<AstExpr*> expr, CurrentBlock& bb) {
+    static constexpr size_t max_nested_deferred = 4096;
+
+    if (inside_deferred_ && ++nested_deferred_ > max_nested_deferred) {
+        if (nested_deferred_ == max_nested_deferred + 1) {
+            diag().report(
+                Diagnostics::Error, expr->range(), "Deferred expressions are nested too deeply.");
+        }
+        return ok;
+    }
+
+    auto restore_inside_deferred = replace_value(inside_deferred_, true);
+    auto result = bb.compile_expr(expr, ExprOptions::MaybeInvalid);
+    if (!result)
+        return result.failure();
+    return ok;
+}
+
 OkResult FunctionIRGen::compile_scope_exit(RegionId scope_id, CurrentBlock& bb) {
     // Using offset based addressing instead of raw pointers/references to ensure
     // that references remain valid. Calls to compile_expr below may push additonal
@@ -421,9 +439,9 @@ OkResult FunctionIRGen::compile_scope_exit(RegionId scope_id, CurrentBlock& bb)
         // if the expression contains control flow expressions like return.
         current_handler(handler);
         bb.advance(strings().insert("defer-normal"));
-        auto result = bb.compile_expr(TIRO_NN(expr), ExprOptions::MaybeInvalid);
+        auto result = compile_deferred_expr(TIRO_NN(expr), bb);
         if (!result)
-            return result.failure();
+            return result;
     }
     return ok;
 }
diff --git a/src/compiler/ir_gen/func.hpp b/src/compiler/ir_gen/func.hpp
index f04e286..407fd59 100644
--- a/src/compiler/ir_gen/func.hpp
+++ b/src/compiler/ir_gen/func.hpp
@@ -274,6 +274,10 @@ public:
     /// Sets the current handler to the specified block id, which may be invalid to signal "no handler" (the default).
     void current_handler(BlockId handler_id);
 
+    /// Compiles a deferred expression. Every copy of a deferred expression contains its own copies of the deferred
+    /// expressions that are nested in it (or are executed by jumps out of it), their number is limited by this function.
+    OkResult compile_deferred_expr(NotNull<AstExpr*> expr, CurrentBlock& bb);
+
     /// Compiles the loop body in the given basic block. Automatically manages the required
     /// loop context (including the closure environment).
     ///
@@ -397,6 +401,12 @@ private:
     // Currently active (inner-most) loop (if any).
     RegionId current_loop_;
 
+    // True while a deferred expression is being compiled.
+    bool inside_deferred_ = false;
+
+    // Number of deferred expressions that have been compiled as part of other deferred expressions.
+    size_t nested_deferred_ = 0;
+
     // Active exception handler.
     BlockId current_handler_;
 
-- 
2.43.0


From b875c936e3c5781b0f224b3a3455ea2c53eacce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:28 +0000
Subject: [PATCH 25/48] fix: variable lookup must not recurse along the control
 flow graph

---
 src/compiler/ir_gen/func.cpp | 99 +++++++++++++++++++++++++-----------
 src/compiler/ir_gen/func.hpp |  7 ++-
 2 files changed, 73 insertions(+), 33 deletions(-)

diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index 53b47ea..24fd534 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -581,13 +581,53 @@ void FunctionIRGen::write_variable(SymbolId var, InstId value, BlockId block_id)
 }
 
 InstId FunctionIRGen::read_variable(SymbolId var, BlockId block_id) {
-    if (auto pos = variables_.find(std::tuple(var, block_id)); pos != variables_.end()) {
-        return pos->second;
+    const auto lookup = [&](BlockId id) {
+        auto pos = variables_.find(std::tuple(var, id));
+        return pos != variables_.end() ? pos->second : InstId();
+    };
+
+    if (auto inst_id = lookup(block_id))
+        return inst_id;
+
+    // Bubble up to the predecessors until the variable is known in all of them. Paths through the
+    // control flow graph can be very long, i.e. this must not be implemented using recursion.
+    std::vector<std::tuple<BlockId, InstId>> stack; // block and its phi node (if any)
+    const auto enter = [&](BlockId id) {
+        auto [inst_id, complete] = begin_read_variable(var, id);
+        if (inst_id)
+            write_variable(var, inst_id, id);
+        if (!complete)
+            stack.emplace_back(id, inst_id);
+    };
+
+    enter(block_id);
+    while (!stack.empty()) {
+        const auto [current_id, phi_id] = stack.back();
+
+        BlockId unknown_pred;
+        for (auto pred : result_[current_id].predecessors()) {
+            if (!lookup(pred)) {
+                unknown_pred = pred;
+                break;
+            }
+        }
+        if (unknown_pred) {
+            enter(unknown_pred);
+            continue;
+        }
+
+        if (phi_id) {
+            add_phi_operands(var, phi_id, current_id);
+        } else {
+            write_variable(var, lookup(result_[current_id].predecessor(0)), current_id);
+        }
+        stack.pop_back();
     }
-    return read_variable_recursive(var, block_id);
+    return lookup(block_id);
 }
 
-InstId FunctionIRGen::read_variable_recursive(SymbolId symbol_id, BlockId block_id) {
+std::tuple<InstId, bool>
+FunctionIRGen::begin_read_variable(SymbolId symbol_id, BlockId block_id) {
     TIRO_DEBUG_ASSERT(block_id != result_.entry(),
         "Variable lookup must always terminate before reaching the virtual CFG root.");
 
@@ -596,44 +636,41 @@ InstId FunctionIRGen::read_variable_recursive(SymbolId symbol_id, BlockId block_
     TIRO_DEBUG_ASSERT(block->predecessor_count(),
         "The block must have at least one predecessor, since we are not at the CFG root.");
 
-    InstId inst_id;
+    const auto define = [&](Value&& value) {
+        auto inst = Inst(std::move(value));
+        inst.name(symbol.name());
+        return define_new(std::move(inst), block_id);
+    };
+
     if (block_id == result_.body()) {
         // We bubbled up to the start of the function body, which means the variable was never defined.
         undefined_variable(symbol_id);
-        auto inst = Inst(Value::make_error());
-        inst.name(symbol.name());
-        inst_id = define_new(std::move(inst), block_id);
-    } else if (block->is_handler()) {
+        return {define(Value::make_error()), true};
+    }
+
+    if (block->is_handler()) {
         // The observe_assign value is created immediately, but without any operands. Those will be filled in
         // later after the functions has been compiled. All publish_assign instructions that may be observed
         // by the exception handler will become operands of the phi_catch here.
-        auto inst = Inst(Value::make_observe_assign(symbol_id, {}));
-        inst.name(symbol.name());
-        inst_id = define_new(std::move(inst), block_id);
-    } else if (!block->sealed()) {
+        return {define(Value::make_observe_assign(symbol_id, {})), true};
+    }
+
+    if (!block->sealed()) {
         // Since the block has not been sealed yet, we cannot know all possible values of the symbol. We create
-        // an empty phi node to stop the recursion here and remember its location in incomplete_phis, which will
+        // an empty phi node to stop the search here and remember its location in incomplete_phis, which will
         // be visited once the block has been sealed.
-        auto inst = Inst(Value(Phi()));
-        inst.name(symbol.name());
-        inst_id = define_new(std::move(inst), block_id);
+        auto inst_id = define(Value(Phi()));
         incomplete_phis_[block_id].emplace_back(symbol_id, inst_id);
-    } else if (block->predecessor_count() == 1) {
-        inst_id = read_variable(symbol_id, block->predecessor(0));
-    } else {
-        // Place a phi marker to break the recursion.
-        // Recursive calls to read_variable will observe the existing Phi node.
-        auto inst = Inst(Value(Phi()));
-        inst.name(symbol.name());
-        inst_id = define_new(std::move(inst), block_id);
-        write_variable(symbol_id, inst_id, block_id);
-
-        // Recurse into predecessor blocks.
-        add_phi_operands(symbol_id, inst_id, block_id);
+        return {inst_id, true};
     }
 
-    write_variable(symbol_id, inst_id, block_id);
-    return inst_id;
+    // The block shares the value of its only predecessor.
+    if (block->predecessor_count() == 1)
+        return {InstId(), false};
+
+    // Place a phi marker to stop the search when it returns to this block. The operands
+    // will be added once the values in all predecessors are known.
+    return {define(Value(Phi())), false};
 }
 
 void FunctionIRGen::add_phi_operands(SymbolId symbol_id, InstId inst_id, BlockId block_id) {
diff --git a/src/compiler/ir_gen/func.hpp b/src/compiler/ir_gen/func.hpp
index 407fd59..d24adbb 100644
--- a/src/compiler/ir_gen/func.hpp
+++ b/src/compiler/ir_gen/func.hpp
@@ -341,8 +341,11 @@ private:
     /// Returns the current SSA value for the given variable in the given block.
     InstId read_variable(SymbolId var, BlockId block_id);
 
-    /// Recursive resolution algorithm for variables. See Algorithm 2 in [BB+13].
-    InstId read_variable_recursive(SymbolId var, BlockId block_id);
+    /// Starts the lookup of a variable that is not known in the given block. See Algorithm 2 in [BB+13].
+    /// Returns the instruction that represents the value and true if the lookup is complete.
+    /// Otherwise, the variable must be looked up in the block's predecessors, and the instruction
+    /// is either a phi node without operands or invalid (if there is only one predecessor).
+    std::tuple<InstId, bool> begin_read_variable(SymbolId var, BlockId block_id);
 
     void add_phi_operands(SymbolId var, InstId value, BlockId block_id);
 
-- 
2.43.0


From 0b5ca4b6681297b452f2235f1744d890389573c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 26/48] fix: exception handlers of exception handlers must
 observe all assignments

---
 .../ir_passes/assignment_observers.cpp        | 263 +++++++++---------
 1 file changed, 135 insertions(+), 128 deletions(-)

diff --git a/src/compiler/ir_passes/assignment_observers.cpp b/src/compiler/ir_passes/assignment_observers.cpp
index 4967ec1..db375b0 100644
--- a/src/compiler/ir_passes/assignment_observers.cpp
+++ b/src/compiler/ir_passes/assignment_observers.cpp
@@ -4,17 +4,16 @@
 #include "compiler/ir/traversal.hpp"
 
 #include "absl/container/flat_hash_map.h"
-#include "absl/container/flat_hash_set.h"
 #include "absl/container/inlined_vector.h"
+#include "absl/container/node_hash_map.h"
+
+#include <algorithm>
+#include <vector>
 
 namespace tiro::ir {
 
 namespace {
 
-using ValueSet = absl::flat_hash_set<InstId, UseHasher>;
-
-using ValueList = absl::InlinedVector<InstId, 3>;
-
 class Pass {
 public:
     explicit Pass(Function& func)
@@ -31,28 +30,40 @@ private:
     // in the exception handler's observe_assign instructions.
     void link_instructions();
 
-    // Gathers all assignments for that block + symbol combination.
-    void fill_operand_set(ValueSet& operands, BlockId block_id, SymbolId symbol_id);
+    // Returns all assignments (to the current symbol) that may be visible at the start of the given handler block.
+    const std::vector<InstId>& visible_assignments(BlockId handler_id);
 
-    // Gathers the value(s) of the given symbol at the start of the block.
-    // CAREFUL: in_values must not modified, pointer references unstable hash map memory.
-    ValueList* in_values(BlockId block_id, SymbolId symbol_id);
+private:
+    // Assignments to a symbol within a block, in order.
+    using AssignList = absl::InlinedVector<InstId, 1>;
+
+    // Represents the state at the start of a block. The values of a block depend on the values of other blocks
+    // and these dependencies may be cyclic, see visible_assignments().
+    struct BlockState {
+        u32 index = 0;
+        u32 lowest = 0;                // Lowest index that can be reached from this block
+        bool done = false;             // True if the values are complete
+        std::vector<BlockId> depends;  // Values are inherited from the start of these blocks
+        size_t next_depends = 0;       // Next dependency to visit
+        std::vector<InstId> values;    // Visible assignments
+    };
 
-    // Gathers the value(s) of the given symbol at the end of the block.
-    // CAREFUL: out_values must not modified, pointer references unstable hash map memory.
-    ValueList* out_values(BlockId block_id, SymbolId symbol_id);
+    BlockState make_state(BlockId block_id, u32 index);
 
 private:
     Function& func_;
 
+    // Reachable blocks.
+    std::vector<BlockId> blocks_;
+
     // Maps from handler blocks to source blocks that use that handler.
     absl::flat_hash_map<BlockId, std::vector<BlockId>, UseHasher> reverse_handlers_;
 
-    // Memoized values for the symbol's value at the start of a block.
-    absl::flat_hash_map<std::tuple<BlockId, SymbolId>, ValueList, UseHasher> in_values_;
+    // Assignments to the current symbol, indexed by block.
+    std::vector<AssignList> assigns_;
 
-    // Memoized values for the symbol's value at the end of a block.
-    absl::flat_hash_map<std::tuple<BlockId, SymbolId>, ValueList, UseHasher> out_values_;
+    // Values of the current symbol.
+    absl::node_hash_map<BlockId, BlockState, UseHasher> states_;
 };
 
 } // namespace
@@ -66,6 +77,8 @@ void Pass::run() {
 
 bool Pass::analyze_cfg() {
     for (auto block_id : PreorderTraversal(func_)) {
+        blocks_.push_back(block_id);
+
         const auto& block = func_[block_id];
         auto handler_id = block.handler();
         if (handler_id) {
@@ -76,8 +89,6 @@ bool Pass::analyze_cfg() {
 }
 
 void Pass::link_instructions() {
-    ValueSet operand_set;
-
     // Walk every exception handler block and construct the operand sets for all observe_assign instructions.
     // This is done by walking the reverse edges to the source blocks (which use the block as a handler) and
     // inspecting the current value(s) for a certain symbol - very similar to the classical phi node analysis.
@@ -87,144 +98,140 @@ void Pass::link_instructions() {
     // All publish_assign instructions that stay completely unreferenced by any observe_assign
     // instructions (these should be the vast majority in normal code) will be optimized out by the dead
     // code elimination pass.
-    for (const auto& [handler_id, source_ids] : reverse_handlers_) {
-        auto handler = func_.ptr_to(handler_id);
-        for (auto inst_id : handler->insts()) {
-            auto inst = func_.ptr_to(inst_id);
-            if (inst->value().type() != ValueType::ObserveAssign) {
-                continue;
+    struct SymbolInfo {
+        std::vector<std::pair<BlockId, InstId>> observers;
+        std::vector<std::pair<BlockId, InstId>> assigns;
+    };
+    absl::flat_hash_map<SymbolId, SymbolInfo, UseHasher> symbols;
+    for (const auto block_id : blocks_) {
+        for (const auto inst_id : func_[block_id].insts()) {
+            const auto& value = func_[inst_id].value();
+            if (value.type() == ValueType::ObserveAssign) {
+                symbols[value.as_observe_assign().symbol].observers.emplace_back(block_id, inst_id);
+            } else if (value.type() == ValueType::PublishAssign) {
+                symbols[value.as_publish_assign().symbol].assigns.emplace_back(block_id, inst_id);
             }
+        }
+    }
+
+    assigns_.resize(func_.block_count());
+    for (const auto& entry : symbols) {
+        const auto& info = entry.second;
+        if (info.observers.empty())
+            continue;
+
+        for (const auto& [block_id, inst_id] : info.assigns)
+            assigns_[block_id.value()].push_back(inst_id);
 
+        for (const auto& [handler_id, inst_id] : info.observers) {
+            auto inst = func_.ptr_to(inst_id);
             auto obs = inst->value().as_observe_assign();
             TIRO_DEBUG_ASSERT(!obs.operands.valid(),
                 "Operands must not have been assigned to this ObserveAssign instruction yet.");
 
-            // Construct operand set
-            operand_set.clear();
-            for (auto source_id : source_ids) {
-                TIRO_DEBUG_ASSERT(
-                    func_[source_id].handler() == handler_id, "Inconsistent block handler.");
-                fill_operand_set(operand_set, source_id, obs.symbol);
-            }
-
-#if TIRO_DEBUG
-            for (const auto op_inst_id : operand_set) {
-                const auto& op_inst = func_[op_inst_id];
-                TIRO_DEBUG_ASSERT(op_inst.value().type() == ValueType::PublishAssign,
-                    "All operands must be publish_assign instructions.");
-            }
-#endif
-
             // Alter the existing instruction
-            LocalList::Storage storage(operand_set.begin(), operand_set.end());
-            obs.operands = func_.make(LocalList(std::move(storage)));
+            const auto& operands = visible_assignments(handler_id);
+            obs.operands = func_.make(
+                LocalList(LocalList::Storage(operands.begin(), operands.end())));
             inst->value(std::move(obs));
         }
+
+        for (const auto& [block_id, inst_id] : info.assigns)
+            assigns_[block_id.value()].clear();
+        states_.clear();
     }
 }
 
-void Pass::fill_operand_set(ValueSet& operands, BlockId block_id, SymbolId symbol_id) {
-    TIRO_DEBUG_ASSERT(block_id != func_.entry(), "Must not visit the entry block.");
+Pass::BlockState Pass::make_state(BlockId block_id, u32 index) {
+    BlockState state;
+    state.index = state.lowest = index;
 
-    // Ensure initial value is available to the exception handler.
-    {
-        ValueList* pred_values = in_values(block_id, symbol_id);
-        operands.insert(pred_values->begin(), pred_values->end());
-    }
-
-    // Simulate assignments in this block.
     const auto& block = func_[block_id];
-    for (auto inst_id : block.insts()) {
-        const auto& inst = func_[inst_id];
-        switch (inst.value().type()) {
-        case ValueType::PublishAssign: {
-            auto& assign = inst.value().as_publish_assign();
-            if (assign.symbol == symbol_id)
-                operands.insert(inst_id);
-            break;
+    if (block.is_handler()) {
+        // Control can reach the handler from every point within the source blocks: either before
+        // or after any of their assignments.
+        if (auto it = reverse_handlers_.find(block_id); it != reverse_handlers_.end()) {
+            state.depends = it->second;
+            for (const auto source_id : it->second) {
+                const auto& assigns = assigns_[source_id.value()];
+                state.values.insert(state.values.end(), assigns.begin(), assigns.end());
+            }
         }
-        default:
-            break;
+        return state;
+    }
+
+    // The last assignment in a normal predecessor hides all earlier ones.
+    for (const auto pred_id : block.predecessors()) {
+        const auto& assigns = assigns_[pred_id.value()];
+        if (!assigns.empty()) {
+            state.values.push_back(assigns.back());
+        } else {
+            state.depends.push_back(pred_id);
         }
     }
+    return state;
 }
 
-ValueList* Pass::in_values(BlockId block_id, SymbolId symbol_id) {
-    if (auto it = in_values_.find({block_id, symbol_id}); it != in_values_.end()) {
-        return &it->second;
-    }
+// Depth first search that computes the strongly connected components (Tarjan's algorithm) of the blocks. All blocks
+// in a component have the same values: those of its members and those of the components they depend on.
+const std::vector<InstId>& Pass::visible_assignments(BlockId handler_id) {
+    std::vector<BlockId> path;      // Current path of the search
+    std::vector<BlockId> component; // Visited blocks, grouped by component. Not yet done.
 
-    auto write = [&](ValueList set) -> ValueList* {
-        return &(in_values_[{block_id, symbol_id}] = std::move(set));
+    auto enter = [&](BlockId block_id) {
+        states_.emplace(block_id, make_state(block_id, static_cast<u32>(states_.size())));
+        path.push_back(block_id);
+        component.push_back(block_id);
     };
 
-    auto block = func_.ptr_to(block_id);
-
-    // Must also take handler edges into account here.
-    if (block->is_handler()) {
-        const auto reverse_it = reverse_handlers_.find(block_id);
-        TIRO_DEBUG_ASSERT(reverse_it != reverse_handlers_.end(),
-            "There must be reverse edges for every handler block.");
-
-        const auto& handler_preds = reverse_it->second;
-        if (handler_preds.empty())
-            return write({});
-        if (handler_preds.size() == 1)
-            return write(*out_values(handler_preds[0], symbol_id));
-
-        ValueSet set;
-        write({}); // Place a sentinel to stop recursion in control flow loops.
-        for (const auto pred_id : reverse_it->second) {
-            ValueList* pred_values = out_values(pred_id, symbol_id);
-            set.insert(pred_values->begin(), pred_values->end());
-        }
-        return write(ValueList(set.begin(), set.end()));
-    }
+    if (states_.count(handler_id) == 0)
+        enter(handler_id);
+    while (!path.empty()) {
+        const auto block_id = path.back();
+        auto& state = states_.at(block_id);
+
+        if (state.next_depends < state.depends.size()) {
+            const auto dep_id = state.depends[state.next_depends];
+            const auto it = states_.find(dep_id);
+            if (it == states_.end()) {
+                enter(dep_id); // Continues here once the dependency has been visited
+                continue;
+            }
 
-    // Not a handler, inspect normal predecessors.
-    const auto pred_count = block->predecessor_count();
-    if (pred_count == 0)
-        return write({});
-    if (pred_count == 1)
-        return write(*out_values(block->predecessor(0), symbol_id));
-
-    ValueSet set;
-    write({}); // Place a sentinel to stop recursion in control flow loops.
-    for (const auto pred_id : block->predecessors()) {
-        ValueList* pred_values = out_values(pred_id, symbol_id);
-        set.insert(pred_values->begin(), pred_values->end());
-    }
-    return write(ValueList(set.begin(), set.end()));
-}
+            const auto& dep = it->second;
+            if (dep.done) {
+                state.values.insert(state.values.end(), dep.values.begin(), dep.values.end());
+            } else {
+                state.lowest = std::min(state.lowest, dep.lowest);
+            }
+            ++state.next_depends;
+            continue;
+        }
 
-ValueList* Pass::out_values(BlockId block_id, SymbolId symbol_id) {
-    if (auto it = out_values_.find({block_id, symbol_id}); it != out_values_.end()) {
-        return &it->second;
-    }
+        path.pop_back();
+        if (state.lowest != state.index)
+            continue; // Part of the component of an earlier block
 
-    auto write = [&](ValueList set) -> ValueList* {
-        return &(out_values_[{block_id, symbol_id}] = std::move(set));
-    };
+        const auto members_begin = std::find(component.rbegin(), component.rend(), block_id).base() - 1;
+        const std::vector<BlockId> members(members_begin, component.end());
+        component.erase(members_begin, component.end());
 
-    auto block = func_.ptr_to(block_id);
-
-    // Simulate assignments to the symbol.
-    for (const auto& inst_id : reverse_view(block->insts())) {
-        const auto& inst = func_[inst_id];
-        switch (inst.value().type()) {
-        case ValueType::PublishAssign: {
-            const auto& assign = inst.value().as_publish_assign();
-            if (assign.symbol == symbol_id)
-                return write({inst_id});
-            break;
+        std::vector<InstId> values;
+        for (const auto member_id : members) {
+            const auto& member_values = states_.at(member_id).values;
+            values.insert(values.end(), member_values.begin(), member_values.end());
         }
-        default:
-            break;
+        std::sort(values.begin(), values.end(),
+            [](const auto& lhs, const auto& rhs) { return lhs.value() < rhs.value(); });
+        values.erase(std::unique(values.begin(), values.end()), values.end());
+
+        for (const auto member_id : members) {
+            auto& member = states_.at(member_id);
+            member.done = true;
+            member.values = values;
         }
     }
-
-    // No assignment found in this block, lookup in the predecessors.
-    return write(*in_values(block_id, symbol_id));
+    return states_.at(handler_id).values;
 }
 
 void connect_assignment_observers(Function& func) {
-- 
2.43.0


From b7f4528f98fc130c2b35069645c71923e30ebaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:18 +0000
Subject: [PATCH 27/48] verif hook: force collections and allocation failures,
 poison reclaimed storage

---
 src/vm/heap/chunks.cpp |  9 +++++++++
 src/vm/heap/heap.cpp   | 21 +++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/vm/heap/chunks.cpp b/src/vm/heap/chunks.cpp
index cc84ad5..bd29964 100644
--- a/src/vm/heap/chunks.cpp
+++ b/src/vm/heap/chunks.cpp
@@ -3,6 +3,10 @@
 #include "vm/heap/heap.hpp"
 #include "vm/objects/value.hpp"
 
+#ifdef TIRO_VERIF
+#    include <cstring>
+#endif
+
 namespace tiro::vm {
 
 NotNull<Page*> Page::from_address(const void* address, Heap& heap) {
@@ -142,6 +146,11 @@ void Page::sweep(SweepStats& stats, FreeSpace& free_space) {
                                                              : total_cells - current_free;
             TIRO_DEBUG_ASSERT(free_size > 0, "empty free block");
 
+#ifdef TIRO_VERIF
+            // Verification hook: make any use of reclaimed storage visible.
+            std::memset(static_cast<void*>(cell(current_free)), 0xDB, free_size * sizeof(Cell));
+#endif
+
             // register the coalesced block with the free space.
             free_space.insert_free(cells().subspan(current_free, free_size));
             free_cells += free_size;
diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index 024155b..a6a849d 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -8,6 +8,14 @@
 #include "common/scope_guards.hpp"
 #include "vm/heap/allocator.hpp"
 
+#ifdef TIRO_VERIF
+#    include <cstring>
+
+// Verification hook, called before every allocation of a vm object. The returned action is executed first:
+// 0: nothing, 1: run the garbage collector, 2: fail the allocation.
+int (*tiro_verif_before_allocate)(size_t bytes) = nullptr;
+#endif
+
 namespace tiro::vm {
 
 #if 0
@@ -207,6 +215,16 @@ std::tuple<void*, ChunkType> Heap::allocate(size_t bytes_request) {
     TIRO_DEBUG_ASSERT(!collector_.running(), "collector must not be running");
     TIRO_DEBUG_ASSERT(bytes_request > 0, "zero sized allocation");
 
+#ifdef TIRO_VERIF
+    switch (tiro_verif_before_allocate ? tiro_verif_before_allocate(bytes_request) : 0) {
+    case 1:
+        collector_.collect(GcReason::Forced);
+        break;
+    case 2:
+        TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "allocation failure injected by verification hook");
+    }
+#endif
+
     // TODO: Improve the decision when the collector runs.
     //  - Should also run if the allocation would exceed the max_size
     bool collector_ran = false;
@@ -312,6 +330,9 @@ void* Heap::allocate_raw(size_t size, size_t align) {
 void Heap::free_raw(void* block, size_t size, size_t align) {
     TIRO_DEBUG_ASSERT(size <= stats_.total_bytes, "invalid total bytes count");
     stats_.total_bytes -= size;
+#ifdef TIRO_VERIF
+    std::memset(block, 0xDB, size);
+#endif
     alloc_.free_aligned(block, size, align);
 }
 
-- 
2.43.0


From 3f5f6e517aa0fd76f2ca23b57cac19718b099204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:36 +0000
Subject: [PATCH 28/48] fix: resumable functions must be able to pass a tuple
 of arguments to the functions they invoke

---
 src/api/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/functions.cpp b/src/api/functions.cpp
index c1eeb0a..d125b7e 100644
--- a/src/api/functions.cpp
+++ b/src/api/functions.cpp
@@ -268,7 +268,7 @@ void tiro_resumable_frame_invoke(tiro_resumable_frame_t frame, int next_state, t
         auto maybe_args = to_internal_maybe(args);
         if (maybe_args) {
             auto args_handle = maybe_args.handle();
-            if (!args_handle->is<vm::Null>() && args_handle->is<vm::Tuple>())
+            if (!args_handle->is<vm::Null>() && !args_handle->is<vm::Tuple>())
                 return TIRO_REPORT(err, TIRO_ERROR_BAD_TYPE);
         }
 
-- 
2.43.0


From e382952e540a4ee43e804dfe9163f6a48d58ee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:39 +0000
Subject: [PATCH 29/48] fix: hash tables must not be modified when the
 allocation of their storage fails

---
 src/vm/objects/hash_table.cpp | 24 ++++++++++++++++--------
 src/vm/objects/hash_table.hpp |  3 ++-
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/vm/objects/hash_table.cpp b/src/vm/objects/hash_table.cpp
index 95e097e..d871e17 100644
--- a/src/vm/objects/hash_table.cpp
+++ b/src/vm/objects/hash_table.cpp
@@ -556,9 +556,14 @@ void HashTable::init_first(Layout* data, Context& ctx) {
     using InitialSizeClass = SizeClassTraits<SizeClass::U8>;
 
     TIRO_TABLE_TRACE("Initializing hash table to initial capacity");
-    set_entries(data, HashTableStorage::make(ctx, initial_table_capacity));
-    set_index(data, InitialSizeClass::BufferAccess::make(
-                        ctx, initial_index_capacity, InitialSizeClass::empty_value));
+
+    // Allocate everything before the table is modified: allocations may fail.
+    Scope sc(ctx);
+    Local entries = sc.local(HashTableStorage::make(ctx, initial_table_capacity));
+    Local index = sc.local(InitialSizeClass::BufferAccess::make(
+        ctx, initial_index_capacity, InitialSizeClass::empty_value));
+    set_entries(data, *entries);
+    set_index(data, *index);
     data->static_payload()->size = 0;
     data->static_payload()->mask = initial_index_capacity - 1;
 }
@@ -604,12 +609,11 @@ void HashTable::grow_to_capacity(
                 new_entries->append(entry);
         }
     }
-    set_entries(data, *new_entries);
 
     // TODO: make rehashing cheaper by reusing the old index table...
     const SizeClass next_size_class = index_size_class(new_entry_capacity);
     dispatch_size_class(next_size_class, [&](auto traits) {
-        this->template recreate_index<decltype(traits)>(data, ctx, new_index_capacity);
+        this->template recreate_index<decltype(traits)>(data, ctx, new_entries, new_index_capacity);
     });
 }
 
@@ -652,13 +656,17 @@ void HashTable::compact(Layout* data) {
 }
 
 template<typename ST>
-void HashTable::recreate_index(Layout* data, Context& ctx, size_t capacity) {
+void HashTable::recreate_index(
+    Layout* data, Context& ctx, Handle<HashTableStorage> new_entries, size_t capacity) {
     TIRO_DEBUG_ASSERT(
-        size() == occupied_entries(), "Entries array must not have any deleted elements.");
+        size() == new_entries->size(), "Entries array must not have any deleted elements.");
     TIRO_DEBUG_ASSERT(is_pow2(capacity), "New index capacity must be a power of two.");
 
     // TODO rehashing can be made faster, see rust index map at https://github.com/bluss/indexmap
-    set_index(data, ST::BufferAccess::make(ctx, capacity, ST::empty_value));
+    // Note: the allocation may fail, the table must not be modified before.
+    auto new_index = ST::BufferAccess::make(ctx, capacity, ST::empty_value);
+    set_entries(data, *new_entries);
+    set_index(data, new_index);
     data->static_payload()->mask = capacity - 1;
     rehash_index<ST>(data);
 }
diff --git a/src/vm/objects/hash_table.hpp b/src/vm/objects/hash_table.hpp
index 3071da2..a1a8646 100644
--- a/src/vm/objects/hash_table.hpp
+++ b/src/vm/objects/hash_table.hpp
@@ -300,7 +300,8 @@ private:
     // Creates a new index table from an existing entries array.
     // This could be optimized further by using the old index table (?).
     template<typename ST>
-    void recreate_index(Layout* data, Context& ctx, size_t capacity);
+    void recreate_index(
+        Layout* data, Context& ctx, Handle<HashTableStorage> new_entries, size_t capacity);
 
     // Creates the index from scratch using the existing index array.
     // The index array should have been cleared (if reused) or initialized
-- 
2.43.0


From d157b965a836bf5916a61262e94170952fea9164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:52 +0000
Subject: [PATCH 30/48] fix: requests for 64 GiB or more must not be truncated
 to a small allocation

---
 src/vm/heap/heap.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index a6a849d..9dc1b1d 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -1,6 +1,7 @@
 #include "vm/heap/heap.hpp"
 
 #include <algorithm>
+#include <limits>
 #include <new>
 
 #include "fmt/format.h"
@@ -24,6 +25,9 @@ namespace tiro::vm {
 #    define TIRO_TRACE_FREE_SPACE(...)
 #endif
 
+// Objects are measured in (32 bit) cells.
+static constexpr size_t max_object_size = size_t(std::numeric_limits<u32>::max()) * cell_size;
+
 FreeSpace::FreeSpace(const PageLayout& layout)
     : layout_(layout) {
     const u32 largest_class_size = ceil_pow2_fast(layout.cells_size) >> 2;
@@ -234,6 +238,9 @@ std::tuple<void*, ChunkType> Heap::allocate(size_t bytes_request) {
     }
 
     // Objects of large size get an allocation of their own.
+    if (TIRO_UNLIKELY(bytes_request > max_object_size))
+        TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "object size of {} bytes is too large", bytes_request);
+
     const u32 cells_request = ceil_div(bytes_request, cell_size);
     if (cells_request >= layout_.large_object_cells) {
         auto lob = add_lob(cells_request);
-- 
2.43.0


From a820d8e7b4b9d4a544be2f3737ad7bc26b6ae88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:51 +0000
Subject: [PATCH 31/48] fix: a failed allocation must not count towards the
 memory limit

---
 src/vm/heap/heap.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index 9dc1b1d..11b1373 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -326,11 +326,12 @@ void* Heap::allocate_raw(size_t size, size_t align) {
     TIRO_DEBUG_ASSERT(stats_.total_bytes <= max_size_, "invalid total bytes count");
     if (TIRO_UNLIKELY(size > max_size_ - stats_.total_bytes))
         TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "memory limit reached");
-    stats_.total_bytes += size;
 
-    void* result = alloc_.allocate_aligned(size, align);
+    void* result = alloc_.allocate_aligned(size, align); // may throw
     if (TIRO_UNLIKELY(!result))
-        TIRO_ERROR("failed to allocate block of size {}", size);
+        TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "failed to allocate block of size {}", size);
+
+    stats_.total_bytes += size;
     return result;
 }
 
-- 
2.43.0


From 923ff4b3a87ef801775db71478c65a1efb7712a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:25 +0000
Subject: [PATCH 32/48] fix: the cleanup function of a coroutine callback is
 optional

---
 src/api/objects.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/api/objects.cpp b/src/api/objects.cpp
index a6724e0..4daaf5e 100644
--- a/src/api/objects.cpp
+++ b/src/api/objects.cpp
@@ -842,7 +842,8 @@ void tiro_coroutine_set_callback(tiro_vm_t vm, tiro_handle_t coroutine,
     tiro_error_t* err) {
     return entry_point(err, [&] {
         if (!vm || !coroutine || !callback) {
-            cleanup(userdata);
+            if (cleanup)
+                cleanup(userdata);
             return TIRO_REPORT(err, TIRO_ERROR_BAD_ARG);
         }
 
@@ -896,7 +897,8 @@ void tiro_coroutine_set_callback(tiro_vm_t vm, tiro_handle_t coroutine,
 
         auto maybe_coro = to_internal(coroutine).try_cast<vm::Coroutine>();
         if (!maybe_coro) {
-            cleanup(userdata);
+            if (cleanup)
+                cleanup(userdata);
             return TIRO_REPORT(err, TIRO_ERROR_BAD_TYPE);
         }
 
-- 
2.43.0


From 1277dc251706c33c7e1015fea089b4d9e25078ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:25 +0000
Subject: [PATCH 33/48] fix: a coroutine must keep its callback when a new
 callback cannot be registered

---
 src/vm/context.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/vm/context.cpp b/src/vm/context.cpp
index 9bafe51..21dd554 100644
--- a/src/vm/context.cpp
+++ b/src/vm/context.cpp
@@ -66,11 +66,7 @@ Coroutine Context::make_coroutine(Handle<Value> func, MaybeHandle<Tuple> args) {
 void Context::set_callback(Handle<Coroutine> coro, CoroutineCallback& on_complete) {
     Scope sc(*this);
 
-    Local existing = sc.local(coro->native_callback());
-    if (existing->has_value()) {
-        coro->native_callback({});
-    }
-
+    // Replaces the existing callback, if any (only if the allocation succeeds).
     Local callback = sc.local(
         NativeObject::make(*this, &coroutine_callback_type, on_complete.size()));
     void* data = callback->data();
-- 
2.43.0


From d77bf3f46bf3c516095044d2ab87a60d1cd5e7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:18 +0000
Subject: [PATCH 34/48] fix: large objects must be able to use all memory that
 is free or unreachable

---
 src/vm/heap/chunks.cpp |  5 +++++
 src/vm/heap/chunks.hpp |  3 +++
 src/vm/heap/heap.cpp   | 34 +++++++++++++++++++++++++++++++++-
 src/vm/heap/heap.hpp   |  8 ++++++++
 4 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/src/vm/heap/chunks.cpp b/src/vm/heap/chunks.cpp
index bd29964..8b86e7c 100644
--- a/src/vm/heap/chunks.cpp
+++ b/src/vm/heap/chunks.cpp
@@ -234,6 +234,11 @@ bool Page::is_cell_block_extent(u32 index) {
     return !mark_bitmap().test(index) && !block_bitmap().test(index);
 }
 
+bool Page::is_free() {
+    auto block = block_bitmap();
+    return block.find_set() == block.npos;
+}
+
 void Page::set_allocated(u32 index, [[maybe_unused]] u32 size) {
     TIRO_DEBUG_ASSERT(index <= cells_count(), "cell index out of bounds");
     TIRO_DEBUG_ASSERT(size <= cells_count() - index, "cell range out of bounds");
diff --git a/src/vm/heap/chunks.hpp b/src/vm/heap/chunks.hpp
index c1d5502..1e43934 100644
--- a/src/vm/heap/chunks.hpp
+++ b/src/vm/heap/chunks.hpp
@@ -181,6 +181,9 @@ public:
     /// NOTE: Consult the bitmap table in `design/heap.md` for more information.
     bool is_cell_block_extent(u32 index);
 
+    /// Returns true if this page does not contain any objects, i.e. if all its cells form a single free block.
+    bool is_free();
+
     /// Marks the cell range [index, index + size) as allocated in the block & mark bitmaps.
     /// Any previous bitmap state of the cell range is discarded; no invariants are checked.
     void set_allocated(u32 index, u32 size);
diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index 11b1373..6843b5e 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -133,6 +133,17 @@ void FreeSpace::insert_free_with_metadata(Span<Cell> cells) {
     insert_free(cells);
 }
 
+void FreeSpace::remove_free(Span<Cell> cells) {
+    FreeList& list = lists_[class_index(cells.size())];
+    for (FreeListEntry** cursor = &list.head; *cursor; cursor = &(*cursor)->next) {
+        if (reinterpret_cast<Cell*>(*cursor) == cells.data()) {
+            *cursor = (*cursor)->next;
+            return;
+        }
+    }
+    TIRO_DEBUG_ASSERT(false, "block is not registered with the free space");
+}
+
 void FreeSpace::reset() {
     std::fill(lists_.begin(), lists_.end(), FreeList());
 }
@@ -230,7 +241,6 @@ std::tuple<void*, ChunkType> Heap::allocate(size_t bytes_request) {
 #endif
 
     // TODO: Improve the decision when the collector runs.
-    //  - Should also run if the allocation would exceed the max_size
     bool collector_ran = false;
     if (stats_.allocated_bytes >= collector_.next_threshold()) {
         collector_.collect(GcReason::Automatic);
@@ -243,6 +253,14 @@ std::tuple<void*, ChunkType> Heap::allocate(size_t bytes_request) {
 
     const u32 cells_request = ceil_div(bytes_request, cell_size);
     if (cells_request >= layout_.large_object_cells) {
+        // Make room if the object would exceed the maximum size of the heap.
+        const size_t chunk_size = LargeObject::dynamic_size(cells_request);
+        auto exceeds_max_size = [&]() { return chunk_size > max_size_ - stats_.total_bytes; };
+        if (!pages_.empty() && exceeds_max_size() && !collector_ran)
+            collector_.collect(GcReason::AllocFailure);
+        if (exceeds_max_size())
+            release_free_pages();
+
         auto lob = add_lob(cells_request);
         stats_.allocated_objects += 1;
         stats_.allocated_bytes += bytes_request;
@@ -355,6 +373,20 @@ NotNull<Page*> Heap::add_page() {
     return page;
 }
 
+void Heap::release_free_pages() {
+    for (auto it = pages_.begin(), end = pages_.end(); it != end;) {
+        auto page = *it;
+        auto erase = it++;
+        if (!page->is_free())
+            continue;
+
+        free_.remove_free(page->cells());
+        stats_.free_bytes -= layout_.cells_size * cell_size;
+        pages_.erase(erase);
+        Page::destroy(page);
+    }
+}
+
 NotNull<LargeObject*> Heap::add_lob(u32 cells) {
     NotNull<LargeObject*> lob = LargeObject::allocate(*this, cells); // may throw
     TIRO_DEBUG_ASSERT(lob->cells_count() == cells, "large object has inconsistent number of cells");
diff --git a/src/vm/heap/heap.hpp b/src/vm/heap/heap.hpp
index 283fbec..1dfa3a0 100644
--- a/src/vm/heap/heap.hpp
+++ b/src/vm/heap/heap.hpp
@@ -93,6 +93,11 @@ public:
     /// \pre `cells.size() >= 1`.
     void insert_free_with_metadata(Span<Cell> cells);
 
+    /// Removes a block of free cells from the free space.
+    ///
+    /// \pre `cells` must be a complete block that has been inserted earlier.
+    void remove_free(Span<Cell> cells);
+
     /// Drops all references to free blocks.
     void reset();
 
@@ -232,6 +237,9 @@ private:
     /// \pre `address` points to a valid object.
     void mark_finalizer(ChunkType chunk, void* address);
 
+    /// Returns the storage of all pages that do not contain any objects to the allocator.
+    void release_free_pages();
+
     // Allocates and registers.
     NotNull<Page*> add_page();
     NotNull<LargeObject*> add_lob(u32 cells);
-- 
2.43.0


From 07e2fa325c733c36f1fd49de940ebbbdcf09f964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:50 +0000
Subject: [PATCH 35/48] fix: frames with exactly the maximum number of locals
 failed an assertion

---
 src/vm/objects/coroutine_stack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/objects/coroutine_stack.cpp b/src/vm/objects/coroutine_stack.cpp
index 1c73bb7..a425403 100644
--- a/src/vm/objects/coroutine_stack.cpp
+++ b/src/vm/objects/coroutine_stack.cpp
@@ -315,7 +315,7 @@ CoroutineStack::push_frame(u8 flags, u32 argc, u32 locals, Params&&... additiona
 void* CoroutineStack::allocate_frame(u32 frame_size, u32 locals) {
     Layout* data = layout();
     TIRO_DEBUG_ASSERT(data->top <= data->end, "invalid stack top");
-    TIRO_DEBUG_ASSERT(locals < max_locals, "too many locals");
+    TIRO_DEBUG_ASSERT(locals <= max_locals, "too many locals");
     TIRO_DEBUG_ASSERT(locals <= (std::numeric_limits<u32>::max() - frame_size) / sizeof(Value),
         "integer overflow in frame allocation");
 
-- 
2.43.0


From 2b683d58972e583e4289954587bac41354191990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:49 +0000
Subject: [PATCH 36/48] fix: functions that require too many locals were
 compiled but refused by the virtual machine

---
 src/bytecode/function.hpp |  3 +++
 src/compiler/compiler.cpp | 15 +++++++++++++++
 src/vm/modules/verify.hpp |  4 ++--
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/bytecode/function.hpp b/src/bytecode/function.hpp
index b32b47d..7d07f18 100644
--- a/src/bytecode/function.hpp
+++ b/src/bytecode/function.hpp
@@ -11,6 +11,9 @@
 
 namespace tiro {
 
+/// Maximum number of locals supported in a function.
+inline constexpr u32 max_locals = 1 << 14;
+
 enum class BytecodeFunctionType : u8 {
     Normal,  // Normal function
     Closure, // Function requires closure environment
diff --git a/src/compiler/compiler.cpp b/src/compiler/compiler.cpp
index 62b72b4..5f7c659 100644
--- a/src/compiler/compiler.cpp
+++ b/src/compiler/compiler.cpp
@@ -97,6 +97,21 @@ CompilerResult Compiler::run() {
     }
 
     BytecodeModule module = generate_bytecode(*ir_module);
+    for (auto id : module.function_ids()) {
+        // The virtual machine refuses to load functions that require too many locals.
+        const auto& func = module[id];
+        if (func.locals() > max_locals) {
+            // The source location is no longer available here.
+            const auto name = func.name() ? module.strings().dump(module[func.name()].as_string().value)
+                                          : std::string_view("<anonymous>");
+            diag_.reportf(Diagnostics::Error, AbsoluteSourceRange(*sources_.ids().begin(), {}),
+                "Function '{}' requires too many local values ({} values, maximum is {}).", name,
+                func.locals(), max_locals);
+        }
+    }
+    if (has_errors())
+        return result;
+
     if (options_.keep_bytecode) {
         StringFormatStream stream;
         format_module(module, stream);
diff --git a/src/vm/modules/verify.hpp b/src/vm/modules/verify.hpp
index 747c9d6..754a96f 100644
--- a/src/vm/modules/verify.hpp
+++ b/src/vm/modules/verify.hpp
@@ -1,14 +1,14 @@
 #ifndef TIRO_VM_MODULES_VERIFY_HPP
 #define TIRO_VM_MODULES_VERIFY_HPP
 
+#include "bytecode/function.hpp"
 #include "bytecode/fwd.hpp"
 #include "vm/fwd.hpp"
 #include "vm/objects/module.hpp"
 
 namespace tiro::vm {
 
-/// Maximum number of locals supported in a function.
-inline constexpr u32 max_locals = 1 << 14;
+using tiro::max_locals;
 
 /// Maximum number of stack arguments to a container-creating instruction such as 'Array'.
 inline constexpr u32 max_container_args = 1 << 16;
-- 
2.43.0


From 8b9e501031b8ac03895fb0e700c841f1003c46dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:27 +0000
Subject: [PATCH 37/48] fix: methods accessed through their type and called
 with another type of value ended in an internal error instead of a panic

---
 src/vm/objects/array.cpp      |  6 +++---
 src/vm/objects/buffer.cpp     |  3 ++-
 src/vm/objects/class.cpp      |  3 ++-
 src/vm/objects/coroutine.cpp  |  9 +++++----
 src/vm/objects/exception.cpp  |  4 ++--
 src/vm/objects/hash_table.cpp | 12 ++++++------
 src/vm/objects/native.hpp     |  6 ++++--
 src/vm/objects/result.cpp     | 11 ++++++-----
 src/vm/objects/set.cpp        | 10 +++++-----
 src/vm/objects/string.cpp     | 34 +++++++++++++++++-----------------
 src/vm/objects/tuple.cpp      |  3 ++-
 11 files changed, 54 insertions(+), 47 deletions(-)

diff --git a/src/vm/objects/array.cpp b/src/vm/objects/array.cpp
index 9c1f21f..3f71341 100644
--- a/src/vm/objects/array.cpp
+++ b/src/vm/objects/array.cpp
@@ -153,18 +153,18 @@ std::optional<Value> ArrayIterator::next() {
 }
 
 static void array_size_impl(SyncFrameContext& frame) {
-    auto array = check_instance<Array>(frame);
+    TIRO_FRAME_TRY(array, check_instance<Array>(frame));
     frame.return_value(frame.ctx().get_integer(static_cast<i64>(array->size())));
 }
 
 static void array_append_impl(SyncFrameContext& frame) {
-    auto array = check_instance<Array>(frame);
+    TIRO_FRAME_TRY(array, check_instance<Array>(frame));
     auto value = frame.arg(1);
     TIRO_FRAME_TRY_VOID(array->append(frame.ctx(), value));
 }
 
 static void array_clear_impl(SyncFrameContext& frame) {
-    auto array = check_instance<Array>(frame);
+    TIRO_FRAME_TRY(array, check_instance<Array>(frame));
     array->clear();
 }
 
diff --git a/src/vm/objects/buffer.cpp b/src/vm/objects/buffer.cpp
index d93c0b2..305bc25 100644
--- a/src/vm/objects/buffer.cpp
+++ b/src/vm/objects/buffer.cpp
@@ -1,6 +1,7 @@
 #include "vm/objects/buffer.hpp"
 
 #include "vm/context.hpp"
+#include "vm/error_utils.hpp"
 #include "vm/math.hpp"
 #include "vm/object_support/factory.hpp"
 #include "vm/object_support/type_desc.hpp"
@@ -56,7 +57,7 @@ Buffer Buffer::make_impl(Context& ctx, size_t total_size, Init&& init) {
 }
 
 static void buffer_size_impl(SyncFrameContext& frame) {
-    auto buffer = check_instance<Buffer>(frame);
+    TIRO_FRAME_TRY(buffer, check_instance<Buffer>(frame));
     i64 size = static_cast<i64>(buffer->size());
     frame.return_value(frame.ctx().get_integer(size));
 }
diff --git a/src/vm/objects/class.cpp b/src/vm/objects/class.cpp
index 90aefd5..8f18d8b 100644
--- a/src/vm/objects/class.cpp
+++ b/src/vm/objects/class.cpp
@@ -1,6 +1,7 @@
 #include "vm/objects/class.hpp"
 
 #include "vm/context.hpp"
+#include "vm/error_utils.hpp"
 #include "vm/handles/scope.hpp"
 #include "vm/math.hpp"
 #include "vm/object_support/factory.hpp"
@@ -67,7 +68,7 @@ std::optional<Value> Type::find_member(Handle<Symbol> name) {
 }
 
 static void class_name_impl(SyncFrameContext& frame) {
-    auto type = check_instance<Type>(frame);
+    TIRO_FRAME_TRY(type, check_instance<Type>(frame));
     frame.return_value(type->name());
 }
 
diff --git a/src/vm/objects/coroutine.cpp b/src/vm/objects/coroutine.cpp
index 9cb66de..53e65d3 100644
--- a/src/vm/objects/coroutine.cpp
+++ b/src/vm/objects/coroutine.cpp
@@ -1,6 +1,7 @@
 #include "vm/objects/coroutine.hpp"
 
 #include "vm/context.hpp"
+#include "vm/error_utils.hpp"
 #include "vm/object_support/factory.hpp"
 #include "vm/object_support/type_desc.hpp"
 #include "vm/objects/result.hpp"
@@ -164,7 +165,7 @@ bool CoroutineToken::resume(Context& ctx, Handle<CoroutineToken> token) {
 }
 
 static void coroutine_name_impl(SyncFrameContext& frame) {
-    auto coroutine = check_instance<Coroutine>(frame);
+    TIRO_FRAME_TRY(coroutine, check_instance<Coroutine>(frame));
     frame.return_value(coroutine->name());
 }
 
@@ -175,17 +176,17 @@ static const FunctionDesc coroutine_methods[] = {
 const TypeDesc coroutine_type_desc{"Coroutine"sv, coroutine_methods};
 
 static void coroutine_token_coroutine_impl(SyncFrameContext& frame) {
-    auto token = check_instance<CoroutineToken>(frame);
+    TIRO_FRAME_TRY(token, check_instance<CoroutineToken>(frame));
     frame.return_value(token->coroutine());
 }
 
 static void coroutine_token_valid_impl(SyncFrameContext& frame) {
-    auto token = check_instance<CoroutineToken>(frame);
+    TIRO_FRAME_TRY(token, check_instance<CoroutineToken>(frame));
     frame.return_value(frame.ctx().get_boolean(token->valid()));
 }
 
 static void coroutine_token_resume_impl(SyncFrameContext& frame) {
-    auto token = check_instance<CoroutineToken>(frame);
+    TIRO_FRAME_TRY(token, check_instance<CoroutineToken>(frame));
     bool success = CoroutineToken::resume(frame.ctx(), token);
     frame.return_value(frame.ctx().get_boolean(success));
 }
diff --git a/src/vm/objects/exception.cpp b/src/vm/objects/exception.cpp
index ffaa399..3a46647 100644
--- a/src/vm/objects/exception.cpp
+++ b/src/vm/objects/exception.cpp
@@ -99,12 +99,12 @@ Exception vformat_exception_impl(Context& ctx, std::string_view format, fmt::for
 }
 
 static void exception_message_impl(SyncFrameContext& frame) {
-    auto ex = check_instance<Exception>(frame);
+    TIRO_FRAME_TRY(ex, check_instance<Exception>(frame));
     frame.return_value(ex->message());
 }
 
 static void exception_trace_impl(SyncFrameContext& frame) {
-    auto ex = check_instance<Exception>(frame);
+    TIRO_FRAME_TRY(ex, check_instance<Exception>(frame));
     frame.return_value(ex->trace());
 }
 
diff --git a/src/vm/objects/hash_table.cpp b/src/vm/objects/hash_table.cpp
index d871e17..da57a31 100644
--- a/src/vm/objects/hash_table.cpp
+++ b/src/vm/objects/hash_table.cpp
@@ -876,34 +876,34 @@ Value HashTableValueIterator::return_value(
 }
 
 static void hash_table_size_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     i64 size = static_cast<i64>(table->size());
     frame.return_value(frame.ctx().get_integer(size));
 }
 
 static void hash_table_contains_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     bool result = table->contains(*frame.arg(1));
     frame.return_value(frame.ctx().get_boolean(result));
 }
 
 static void hash_table_keys_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     frame.return_value(HashTableKeyView::make(frame.ctx(), table));
 }
 
 static void hash_table_values_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     frame.return_value(HashTableValueView::make(frame.ctx(), table));
 }
 
 static void hash_table_clear_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     table->clear();
 }
 
 static void hash_table_remove_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     table->remove(*frame.arg(1));
 }
 
diff --git a/src/vm/objects/native.hpp b/src/vm/objects/native.hpp
index 2c49f04..6a6afd8 100644
--- a/src/vm/objects/native.hpp
+++ b/src/vm/objects/native.hpp
@@ -516,13 +516,15 @@ private:
     };
 };
 
+/// Returns the `this` argument of a method, or an exception if it has the wrong type (methods can be
+/// accessed as plain functions through their type).
 template<typename T>
-Handle<T> check_instance(SyncFrameContext& frame) {
+Fallible<Handle<T>> check_instance(SyncFrameContext& frame) {
     Handle<Value> value = frame.arg(0);
     if (auto instance = value.try_cast<T>()) {
         return instance.handle();
     }
-    TIRO_ERROR("`this` is not a {}", to_string(TypeToTag<T>));
+    return TIRO_FORMAT_EXCEPTION(frame.ctx(), "`this` is not a {}", to_string(TypeToTag<T>));
 }
 
 class NativeObject final : public HeapValue {
diff --git a/src/vm/objects/result.cpp b/src/vm/objects/result.cpp
index 5e2c7af..d278ddf 100644
--- a/src/vm/objects/result.cpp
+++ b/src/vm/objects/result.cpp
@@ -1,5 +1,6 @@
 #include "vm/objects/result.hpp"
 
+#include "vm/error_utils.hpp"
 #include "vm/math.hpp"
 #include "vm/object_support/factory.hpp"
 #include "vm/object_support/type_desc.hpp"
@@ -67,7 +68,7 @@ Integer Result::get_which() {
 }
 
 static void result_type_impl(SyncFrameContext& frame) {
-    auto result = check_instance<Result>(frame);
+    TIRO_FRAME_TRY(result, check_instance<Result>(frame));
     switch (result->which()) {
     case Result::Success:
         frame.return_value(frame.ctx().get_symbol("success"));
@@ -79,17 +80,17 @@ static void result_type_impl(SyncFrameContext& frame) {
 }
 
 static void result_is_success_impl(SyncFrameContext& frame) {
-    auto result = check_instance<Result>(frame);
+    TIRO_FRAME_TRY(result, check_instance<Result>(frame));
     frame.return_value(frame.ctx().get_boolean(result->is_success()));
 }
 
 static void result_is_error_impl(SyncFrameContext& frame) {
-    auto result = check_instance<Result>(frame);
+    TIRO_FRAME_TRY(result, check_instance<Result>(frame));
     frame.return_value(frame.ctx().get_boolean(result->is_error()));
 }
 
 static void result_value_impl(SyncFrameContext& frame) {
-    auto result = check_instance<Result>(frame);
+    TIRO_FRAME_TRY(result, check_instance<Result>(frame));
     if (!result->is_success()) {
         return frame.panic(
             TIRO_FORMAT_EXCEPTION(frame.ctx(), "cannot access value on failure result"));
@@ -98,7 +99,7 @@ static void result_value_impl(SyncFrameContext& frame) {
 }
 
 static void result_error_impl(SyncFrameContext& frame) {
-    auto result = check_instance<Result>(frame);
+    TIRO_FRAME_TRY(result, check_instance<Result>(frame));
     if (!result->is_error()) {
         return frame.panic(
             TIRO_FORMAT_EXCEPTION(frame.ctx(), "cannot access reason on successful result"));
diff --git a/src/vm/objects/set.cpp b/src/vm/objects/set.cpp
index 44f5c2a..4667fc6 100644
--- a/src/vm/objects/set.cpp
+++ b/src/vm/objects/set.cpp
@@ -78,30 +78,30 @@ std::optional<Value> SetIterator::next(Context& ctx) {
 }
 
 static void set_size_impl(SyncFrameContext& frame) {
-    auto set = check_instance<Set>(frame);
+    TIRO_FRAME_TRY(set, check_instance<Set>(frame));
     i64 size = static_cast<i64>(set->size());
     frame.return_value(frame.ctx().get_integer(size));
 }
 
 static void set_contains_impl(SyncFrameContext& frame) {
-    auto set = check_instance<Set>(frame);
+    TIRO_FRAME_TRY(set, check_instance<Set>(frame));
     bool result = set->contains(*frame.arg(1));
     frame.return_value(frame.ctx().get_boolean(result));
 }
 
 static void set_clear_impl(SyncFrameContext& frame) {
-    auto set = check_instance<Set>(frame);
+    TIRO_FRAME_TRY(set, check_instance<Set>(frame));
     set->clear();
 }
 
 static void set_insert_impl(SyncFrameContext& frame) {
-    auto set = check_instance<Set>(frame);
+    TIRO_FRAME_TRY(set, check_instance<Set>(frame));
     TIRO_FRAME_TRY(inserted, set->insert(frame.ctx(), frame.arg(1)));
     frame.return_value(frame.ctx().get_boolean(inserted));
 }
 
 static void set_remove_impl(SyncFrameContext& frame) {
-    auto set = check_instance<Set>(frame);
+    TIRO_FRAME_TRY(set, check_instance<Set>(frame));
     set->remove(*frame.arg(1));
 }
 
diff --git a/src/vm/objects/string.cpp b/src/vm/objects/string.cpp
index 698946a..2b93c7e 100644
--- a/src/vm/objects/string.cpp
+++ b/src/vm/objects/string.cpp
@@ -421,34 +421,34 @@ StringLike::Which StringLike::which() {
 
 static void string_contains_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto string = check_instance<String>(frame);
+    TIRO_FRAME_TRY(string, check_instance<String>(frame));
     TIRO_FRAME_TRY(needle, require_string_like(ctx, "String.contains", "str", frame.arg(1)));
     bool found = str_contains(string->view(), needle->view());
     frame.return_value(ctx.get_boolean(found));
 }
 
 static void string_size_impl(SyncFrameContext& frame) {
-    auto string = check_instance<String>(frame);
+    TIRO_FRAME_TRY(string, check_instance<String>(frame));
     frame.return_value(frame.ctx().get_integer(string->size()));
 }
 
 static void string_slice_first_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto string = check_instance<String>(frame);
+    TIRO_FRAME_TRY(string, check_instance<String>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "String.slice_first", "offset", frame.arg(1)));
     frame.return_value(string->slice_first(frame.ctx(), offset));
 }
 
 static void string_slice_last_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto string = check_instance<String>(frame);
+    TIRO_FRAME_TRY(string, check_instance<String>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "String.slice_last", "offset", frame.arg(1)));
     frame.return_value(string->slice_last(frame.ctx(), offset));
 }
 
 static void string_slice_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto string = check_instance<String>(frame);
+    TIRO_FRAME_TRY(string, check_instance<String>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "String.slice", "offset", frame.arg(1)));
     TIRO_FRAME_TRY(size, slice_arg(ctx, "String.slice", "size", frame.arg(2)));
     frame.return_value(string->slice(frame.ctx(), offset, size));
@@ -466,41 +466,41 @@ constexpr TypeDesc string_type_desc{"String"sv, string_methods};
 
 static void string_slice_contains_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     TIRO_FRAME_TRY(needle, require_string_like(ctx, "StringSlice.contains", "str", frame.arg(1)));
     bool found = str_contains(slice->view(), needle->view());
     frame.return_value(ctx.get_boolean(found));
 }
 
 static void string_slice_size_impl(SyncFrameContext& frame) {
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     frame.return_value(frame.ctx().get_integer(slice->size()));
 }
 
 static void string_slice_slice_first_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "StringSlice.slice_first", "offset", frame.arg(1)));
     frame.return_value(slice->slice_first(frame.ctx(), offset));
 }
 
 static void string_slice_slice_last_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "StringSlice.slice_last", "offset", frame.arg(1)));
     frame.return_value(slice->slice_last(frame.ctx(), offset));
 }
 
 static void string_slice_slice_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "StringSlice.slice", "offset", frame.arg(1)));
     TIRO_FRAME_TRY(size, slice_arg(ctx, "StringSlice.slice", "size", frame.arg(2)));
     frame.return_value(slice->slice(frame.ctx(), offset, size));
 }
 
 static void string_slice_to_string_impl(SyncFrameContext& frame) {
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     frame.return_value(slice->to_string(frame.ctx()));
 }
 
@@ -516,7 +516,7 @@ static constexpr FunctionDesc string_slice_methods[] = {
 constexpr TypeDesc string_slice_type_desc{"StringSlice"sv, string_slice_methods};
 
 static void string_builder_append_impl(SyncFrameContext& frame) {
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     for (size_t i = 1; i < frame.arg_count(); ++i) {
         Handle<Value> arg = frame.arg(i);
         to_string(frame.ctx(), builder, arg);
@@ -525,7 +525,7 @@ static void string_builder_append_impl(SyncFrameContext& frame) {
 
 static void string_builder_append_byte_impl(SyncFrameContext& frame) {
     Context& ctx = frame.ctx();
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     Handle arg = frame.arg(1);
 
     byte b;
@@ -540,26 +540,26 @@ static void string_builder_append_byte_impl(SyncFrameContext& frame) {
 }
 
 static void string_builder_clear_impl(SyncFrameContext& frame) {
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     builder->clear();
 }
 
 static void string_builder_contains_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     TIRO_FRAME_TRY(needle, require_string_like(ctx, "StringBuilder.contains", "str", frame.arg(1)));
     bool found = str_contains(builder->view(), needle->view());
     frame.return_value(frame.ctx().get_boolean(found));
 }
 
 static void string_builder_size_impl(SyncFrameContext& frame) {
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     size_t size = static_cast<size_t>(builder->size());
     frame.return_value(frame.ctx().get_integer(size));
 }
 
 static void string_builder_to_string_impl(SyncFrameContext& frame) {
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     frame.return_value(builder->to_string(frame.ctx()));
 }
 
diff --git a/src/vm/objects/tuple.cpp b/src/vm/objects/tuple.cpp
index fd68032..a5afb95 100644
--- a/src/vm/objects/tuple.cpp
+++ b/src/vm/objects/tuple.cpp
@@ -1,5 +1,6 @@
 #include "vm/objects/tuple.hpp"
 
+#include "vm/error_utils.hpp"
 #include "vm/object_support/factory.hpp"
 #include "vm/object_support/type_desc.hpp"
 
@@ -98,7 +99,7 @@ std::optional<Value> TupleIterator::next() {
 }
 
 static void tuple_size_impl(SyncFrameContext& frame) {
-    auto tuple = check_instance<Tuple>(frame);
+    TIRO_FRAME_TRY(tuple, check_instance<Tuple>(frame));
     frame.return_value(frame.ctx().get_integer(static_cast<i64>(tuple->size())));
 }
 
-- 
2.43.0


From a6ab963eea4757b9234510fc6fd454273ed01546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:42 +0000
Subject: [PATCH 38/48] fix: debug_repr of strings with invalid utf8 ended in
 an internal error

---
 src/vm/builtins/dump.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/vm/builtins/dump.cpp b/src/vm/builtins/dump.cpp
index 7c79999..a8375f1 100644
--- a/src/vm/builtins/dump.cpp
+++ b/src/vm/builtins/dump.cpp
@@ -97,8 +97,20 @@ struct EscapedString {
 
     void format(FormatStream& stream) const {
         stream.format("\"");
-        for (auto cp : CodePointRange(str)) {
-            format_escaped(cp, stream);
+        std::string_view rest = str;
+        while (!rest.empty()) {
+            // Slices and strings constructed by the host may contain invalid utf8.
+            const auto result = validate_utf8(rest);
+            const size_t valid = result.ok ? rest.size() : result.error_offset;
+            for (auto cp : CodePointRange(rest.substr(0, valid))) {
+                format_escaped(cp, stream);
+            }
+            rest.remove_prefix(valid);
+
+            if (!rest.empty()) {
+                stream.format("\\x{:02X}", static_cast<u8>(rest.front()));
+                rest.remove_prefix(1);
+            }
         }
         stream.format("\"");
     }
-- 
2.43.0


From 88eec09cc08177050d8c9ee01f6dcccd7cf5d997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:07 +0000
Subject: [PATCH 39/48] fix: debug_repr of deeply nested values overflowed the
 native stack

---
 src/vm/builtins/dump.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vm/builtins/dump.cpp b/src/vm/builtins/dump.cpp
index a8375f1..b64dd21 100644
--- a/src/vm/builtins/dump.cpp
+++ b/src/vm/builtins/dump.cpp
@@ -25,7 +25,7 @@ class DumpMap;
 // TODO: This is a prime candidate to port to coroutine functions
 // once native functions can call into tiro code.
 //
-// TODO: Can overflow the native stack since naive recursion is used (TODO 1 should solve this :))
+// Uses naive recursion: values that are nested too deeply are abbreviated to protect the native stack.
 class DumpHelper {
 public:
     explicit DumpHelper(bool pretty)
@@ -41,6 +41,11 @@ public:
     }
 
     void visit(Value value) {
+        if (depth_ >= max_depth) {
+            stream_.format("{{...}}");
+            return;
+        }
+
         // Avoid infinite recursion because of cycles.
         const bool inserted = mark_seen(value);
         if (!inserted) {
@@ -82,6 +87,8 @@ private:
     void mark_unseen(Value v) { seen_.erase(/* XXX */ v.raw()); }
 
 private:
+    static constexpr size_t max_depth = 512;
+
     bool pretty_;
     StringFormatStream stream_;
 
-- 
2.43.0


From d9e9c1b1330f0a433fb7aa62548eebd12e7fd27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:04 +0000
Subject: [PATCH 40/48] fix: std.catch_panic called with additional arguments
 failed an assertion

Builtin functions ignore additional arguments; release builds already did.
---
 src/vm/interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/interpreter.cpp b/src/vm/interpreter.cpp
index d209bbd..5e08a6d 100644
--- a/src/vm/interpreter.cpp
+++ b/src/vm/interpreter.cpp
@@ -1097,7 +1097,7 @@ void Interpreter::run_frame(Handle<Coroutine> coro, NotNull<CatchFrame*> frame)
     TIRO_DEBUG_ASSERT(frame->type == FrameType::Catch, "expected a catch frame");
     TIRO_DEBUG_ASSERT(
         coro->state() == CoroutineState::Running, "the coroutine must be marked as running");
-    TIRO_DEBUG_ASSERT(frame->argc == 1, "expected a single argument");
+    TIRO_DEBUG_ASSERT(frame->argc >= 1, "expected at least one argument");
 
     // Fresh frame.
     if ((frame->flags & FRAME_CATCH_STARTED) == 0) {
-- 
2.43.0


From c50ddd49dacb2381956cbc3ab0750fd975b0022f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:07 +0000
Subject: [PATCH 41/48] fix: coroutine tokens resumed asynchronous calls that
 they did not belong to

Tokens of asynchronous calls were shared with std.coroutine_token() and with
earlier asynchronous calls that returned without yielding.  Such a token could
resume a later call (which then returned null or a value meant for another
call), or coroutines waiting in std.yield_coroutine(), in which case the
result was written into an unrelated stack frame.
---
 src/vm/objects/coroutine.cpp |  3 +++
 src/vm/objects/coroutine.hpp |  3 +++
 src/vm/objects/native.cpp    | 10 +++++++++-
 src/vm/objects/native.hpp    |  9 +++++++++
 4 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/vm/objects/coroutine.cpp b/src/vm/objects/coroutine.cpp
index 53e65d3..e536d34 100644
--- a/src/vm/objects/coroutine.cpp
+++ b/src/vm/objects/coroutine.cpp
@@ -124,7 +124,10 @@ void Coroutine::next_ready(Nullable<Coroutine> next) {
 CoroutineToken Coroutine::create_token(Context& ctx, Handle<Coroutine> coroutine) {
     if (auto current = coroutine->current_token())
         return current.value();
+    return replace_token(ctx, coroutine);
+}
 
+CoroutineToken Coroutine::replace_token(Context& ctx, Handle<Coroutine> coroutine) {
     // Dangling, but following code does not allocate.
     CoroutineToken token = CoroutineToken::make(ctx, coroutine);
     coroutine->layout()->write_static_slot(CurrentTokenSlot, token);
diff --git a/src/vm/objects/coroutine.hpp b/src/vm/objects/coroutine.hpp
index bbf9fe6..8fe667e 100644
--- a/src/vm/objects/coroutine.hpp
+++ b/src/vm/objects/coroutine.hpp
@@ -90,6 +90,9 @@ public:
     // to check whether a token is still valid).
     static CoroutineToken create_token(Context& ctx, Handle<Coroutine> coroutine);
 
+    // Like `create_token`, but always creates a new token. Existing tokens become invalid.
+    static CoroutineToken replace_token(Context& ctx, Handle<Coroutine> coroutine);
+
     // Yields control to other ready coroutines.
     // The coroutine must be running and will be queued to run after all other currently ready coroutines.
     static void schedule(Context& ctx, Handle<Coroutine> coroutine);
diff --git a/src/vm/objects/native.cpp b/src/vm/objects/native.cpp
index 0de761f..45cbb5d 100644
--- a/src/vm/objects/native.cpp
+++ b/src/vm/objects/native.cpp
@@ -180,10 +180,18 @@ NotNull<ResumableFrame*> ResumableFrameContext::frame() const {
 
 AsyncResumeToken AsyncFrameContext::resume_token() {
     Context& ctx = parent_.ctx();
-    UniqueExternal token(ctx.externals().allocate(parent_.resume_token()));
+    CoroutineToken coro_token = has_token_ ? Coroutine::create_token(ctx, parent_.coro())
+                                           : Coroutine::replace_token(ctx, parent_.coro());
+    has_token_ = true;
+    UniqueExternal token(ctx.externals().allocate(coro_token));
     return AsyncResumeToken(std::move(token));
 }
 
+void AsyncFrameContext::discard_token() {
+    if (has_token_)
+        parent_.coro()->reset_token();
+}
+
 UnownedAsyncResumeToken::UnownedAsyncResumeToken(External<CoroutineToken> token)
     : token_(std::move(token)) {}
 
diff --git a/src/vm/objects/native.hpp b/src/vm/objects/native.hpp
index 6a6afd8..12ce8af 100644
--- a/src/vm/objects/native.hpp
+++ b/src/vm/objects/native.hpp
@@ -243,9 +243,15 @@ public:
     void return_value(Value r) { parent_.return_value(r); }
     void panic(Exception ex) { parent_.panic(ex); }
 
+    /// Returns the token that resumes this function call. All tokens previously created for
+    /// the same coroutine become invalid, they cannot be used to resume this call by accident.
     AsyncResumeToken resume_token();
     void yield() { parent_.yield(AsyncFrameContext::STATE_RESUME); }
 
+    /// Must be called if the function returns without yielding. The tokens of this call
+    /// must not be able to resume the coroutine from another location.
+    void discard_token();
+
     template<typename T>
     void return_or_panic(Fallible<T> fallible) {
         parent_.return_or_panic(fallible);
@@ -253,6 +259,7 @@ public:
 
 private:
     ResumableFrameContext& parent_;
+    bool has_token_ = false;
 };
 
 class UnownedAsyncResumeToken final {
@@ -501,6 +508,8 @@ private:
                 func(async);
                 if (frame.cont().action() == ResumableFrameContinuation::NONE)
                     frame.return_value(Value::null());
+                if (frame.cont().action() != ResumableFrameContinuation::YIELD)
+                    async.discard_token();
                 return;
             }
             case AsyncFrameContext::STATE_RESUME: {
-- 
2.43.0


From b087e39690709c4be8dac96003022050b2bfd1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:27 +0000
Subject: [PATCH 42/48] fix: imports of a module whose initialization failed
 were not initialized again and import cycles were forgotten

The members of the importing module were linked before the imported module
was initialized. After an error (failing initializer, missing module, import
cycle) the next attempt skipped the linked modules and initialized the
importing module although its imports were not initialized.
---
 src/vm/modules/registry.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vm/modules/registry.cpp b/src/vm/modules/registry.cpp
index 6da5ff6..31ed5fd 100644
--- a/src/vm/modules/registry.cpp
+++ b/src/vm/modules/registry.cpp
@@ -162,14 +162,17 @@ void ModuleRegistry::resolve_module(Context& ctx, Handle<Module> module) {
                         TIRO_ERROR_WITH_CODE(TIRO_ERROR_MODULE_NOT_FOUND,
                             "module '{}' was not found", imported_name->view());
                     }
-                    current_members->unchecked_set(i, *imported_module);
-                    ++i;
 
                     // Recurse if necessary. CAREFUL: if recurse() pushes a new frame,
                     // the `frame` is invalidated!
+                    // The import remains unresolved until the imported module is initialized and
+                    // is visited again after that. This ensures that failures are not forgotten.
                     if (recurse(imported_module)) {
                         goto next;
                     }
+
+                    current_members->unchecked_set(i, *imported_module);
+                    ++i;
                 }
             }
             frame.state_ = Init;
-- 
2.43.0


From de9b2b467b455a0588dd7d37c418b2487bbac962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:27 +0000
Subject: [PATCH 43/48] fix: modules accessed by nested calls left a coroutine
 behind that executed the initializer later

---
 src/vm/context.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vm/context.cpp b/src/vm/context.cpp
index 21dd554..5400b22 100644
--- a/src/vm/context.cpp
+++ b/src/vm/context.cpp
@@ -121,6 +121,11 @@ bool Context::has_ready() {
 }
 
 Result Context::run_init(Handle<Value> func, MaybeHandle<Tuple> args) {
+    // Checked before the coroutine is started: it would otherwise remain in the ready queue and
+    // would be executed (again) later.
+    if (running_)
+        TIRO_ERROR("already running, modules cannot be initialized by nested calls");
+
     Scope sc(*this);
     Local coro = sc.local(make_coroutine(func, args));
     start(coro);
-- 
2.43.0


From ef21f03cbf112650a7724d85ba9f8ee373fa61cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:44 +0000
Subject: [PATCH 44/48] fix: tiro_boolean_value must not dereference a null
 handle

---
 src/api/objects.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/objects.cpp b/src/api/objects.cpp
index 4daaf5e..047d09e 100644
--- a/src/api/objects.cpp
+++ b/src/api/objects.cpp
@@ -201,7 +201,7 @@ void tiro_make_boolean(tiro_vm_t vm, bool value, tiro_handle_t result, tiro_erro
 
 bool tiro_boolean_value(tiro_vm_t vm, tiro_handle_t value) {
     return entry_point(nullptr, false, [&] {
-        if (!vm)
+        if (!vm || !value)
             return false;
 
         vm::Context& ctx = vm->ctx;
-- 
2.43.0


From 38cdbe41de2e8c0233d01257a85d3f166d86b877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:44 +0000
Subject: [PATCH 45/48] fix: converting large floats and nan to integers must
 not be undefined behaviour

---
 src/vm/objects/primitives.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/vm/objects/primitives.cpp b/src/vm/objects/primitives.cpp
index 47786dd..0a2f270 100644
--- a/src/vm/objects/primitives.cpp
+++ b/src/vm/objects/primitives.cpp
@@ -99,7 +99,20 @@ f64 Number::convert_float() {
 }
 
 i64 Number::convert_int() {
-    return visit([](auto&& v) { return static_cast<i64>(v.value()); });
+    struct Visitor {
+        i64 operator()(Integer i) { return i.value(); }
+        i64 operator()(Float f) {
+            // Casting values outside of the range of i64 (or nan) is undefined behaviour.
+            constexpr f64 limit = 9223372036854775808.0; // 2 ** 63
+            f64 v = f.value();
+            if (v >= limit)
+                return std::numeric_limits<i64>::max();
+            if (v < -limit)
+                return std::numeric_limits<i64>::min();
+            return v == v ? static_cast<i64>(v) : 0;
+        }
+    };
+    return visit(Visitor());
 }
 
 std::optional<i64> Number::try_extract_int() {
-- 
2.43.0


From b80e41fd3dc030f9e90103f3c8eb9eb6799bfa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:44 +0000
Subject: [PATCH 46/48] fix: tiro_compiler_run must refuse to run without
 source files

---
 src/api/compiler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/api/compiler.cpp b/src/api/compiler.cpp
index e1e52bb..37848ec 100644
--- a/src/api/compiler.cpp
+++ b/src/api/compiler.cpp
@@ -152,6 +152,10 @@ void tiro_compiler_run(tiro_compiler_t comp, tiro_error_t* err) {
         if (comp->started || comp->result)
             return TIRO_REPORT(err, TIRO_ERROR_BAD_STATE);
 
+        if (comp->files.empty())
+            return TIRO_REPORT(err, TIRO_ERROR_BAD_STATE,
+                [] { return "at least one source file is required"; });
+
         comp->started = true;
 
         CompilerOptions options;
-- 
2.43.0


From 1b921526e16dd0b725463b82725f7747d23c7a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:19 +0000
Subject: [PATCH 47/48] fix: verify the index registers of LoadIndex and
 StoreIndex

---
 src/vm/modules/verify.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vm/modules/verify.cpp b/src/vm/modules/verify.cpp
index 5bf7a5f..5f3d8a0 100644
--- a/src/vm/modules/verify.cpp
+++ b/src/vm/modules/verify.cpp
@@ -517,6 +517,7 @@ void FunctionVerifier::InstructionVisitor::visit_store_tuple_member(
 void FunctionVerifier::InstructionVisitor::visit_load_index(
     const BytecodeInstr::LoadIndex& load_index) {
     self.check(load_index.array);
+    self.check(load_index.index);
     self.check(load_index.target);
 }
 
@@ -524,6 +525,7 @@ void FunctionVerifier::InstructionVisitor::visit_store_index(
     const BytecodeInstr::StoreIndex& store_index) {
     self.check(store_index.source);
     self.check(store_index.array);
+    self.check(store_index.index);
 }
 
 void FunctionVerifier::InstructionVisitor::visit_load_closure(
-- 
2.43.0


From 315c09e69950b977901761817ee625967fbebff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:40 +0000
Subject: [PATCH 48/48] fix: refuse modules that refer to unknown strings,
 functions or record schemas

---
 src/common/text/string_table.cpp |  4 ++++
 src/common/text/string_table.hpp |  3 +++
 src/vm/modules/verify.cpp        | 11 ++++++-----
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/common/text/string_table.cpp b/src/common/text/string_table.cpp
index b8a1439..cc70323 100644
--- a/src/common/text/string_table.cpp
+++ b/src/common/text/string_table.cpp
@@ -52,6 +52,10 @@ std::optional<InternedString> StringTable::find(std::string_view str) const {
     return {};
 }
 
+bool StringTable::contains(const InternedString& str) const {
+    return str && strings_by_index_.count(str.value()) > 0;
+}
+
 std::string_view StringTable::value(const InternedString& str) const {
     TIRO_CHECK(str, "Invalid interned string instance.");
 
diff --git a/src/common/text/string_table.hpp b/src/common/text/string_table.hpp
index fb3a324..b52c2c1 100644
--- a/src/common/text/string_table.hpp
+++ b/src/common/text/string_table.hpp
@@ -41,6 +41,9 @@ public:
     /// exists in the table.
     std::optional<InternedString> find(std::string_view str) const;
 
+    /// Returns true if the given string index is valid and refers to a string in this table.
+    bool contains(const InternedString& str) const;
+
     /// Returns the string value for the given string index.
     /// Throws if the string is invalid.
     std::string_view value(const InternedString& str) const;
diff --git a/src/vm/modules/verify.cpp b/src/vm/modules/verify.cpp
index 5f3d8a0..8c82dc5 100644
--- a/src/vm/modules/verify.cpp
+++ b/src/vm/modules/verify.cpp
@@ -173,7 +173,7 @@ private:
 } // namespace
 
 void ModuleVerifier::verify() {
-    if (!module_.name())
+    if (!module_.strings().contains(module_.name()))
         fail("module does not have a valid name");
 
     // Validate data
@@ -243,7 +243,7 @@ void ModuleVerifier::visit_float(
     [[maybe_unused]] const BytecodeMember::Float& f, [[maybe_unused]] BytecodeMemberId id) {}
 
 void ModuleVerifier::visit_string(const BytecodeMember::String& s, BytecodeMemberId id) {
-    if (!s.value) {
+    if (!module_.strings().contains(s.value)) {
         fail(fmt::format("invalid string (in member {})", id.value()));
     }
 }
@@ -268,7 +268,7 @@ void ModuleVerifier::visit_variable(
     [[maybe_unused]] const BytecodeMember::Variable& v, [[maybe_unused]] BytecodeMemberId id) {}
 
 void ModuleVerifier::visit_function(const BytecodeMember::Function& f, BytecodeMemberId id) {
-    if (!f.id) {
+    if (!f.id || !module_.functions().in_bounds(f.id)) {
         fail(fmt::format("invalid function reference (in member {})", id.value()));
     }
 
@@ -286,7 +286,7 @@ void ModuleVerifier::visit_function(const BytecodeMember::Function& f, BytecodeM
 
 void ModuleVerifier::visit_record_schema(
     const BytecodeMember::RecordSchema& r, BytecodeMemberId id) {
-    if (!r.id) {
+    if (!r.id || !module_.records().in_bounds(r.id)) {
         fail(fmt::format("invalid record schema reference (in member {})", id.value()));
     }
 
@@ -323,7 +323,8 @@ ModuleVerifier::check_reference(BytecodeMemberId id, BytecodeMemberId parent) {
 
 void ModuleVerifier::fail(std::string_view message) {
     // TODO: Mark exception as bytecode verification failure, e.g. with a kind enum?
-    std::string_view name = module_.strings().dump(module_.name());
+    const auto& strings = module_.strings();
+    std::string_view name = strings.contains(module_.name()) ? strings.value(module_.name()) : "N/A";
     TIRO_ERROR("module '{}' verification error: {}", name, message);
 }
 
-- 
2.43.0

