From eeaf6e1859058bb4e7de74d5d1df2536e7cc4cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:46 +0000
Subject: [PATCH 01/67] fix: apply tail-call replacements back to front so
 indexes stay valid

A function with two or more tail calls had its later replacements applied at
stale indexes, which corrupted the instructions.
---
 src/middle_end/middle_end_optimiser/tail_call_optimise.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
index 5b2106c..566e59c 100644
--- a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
+++ b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
@@ -97,7 +97,8 @@ pub fn tail_call_optimise(
         }
     }
 
-    for (replace_index, remove_count, new_instrs) in replace_instrs {
+    // replace from the last to the first, so that the remaining indexes stay valid
+    for (replace_index, remove_count, new_instrs) in replace_instrs.into_iter().rev() {
         for _ in 0..remove_count {
             fun_instrs.remove(replace_index);
         }
-- 
2.43.0


From edf1d193868c16381c4de6655967450e33efead8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:46 +0000
Subject: [PATCH 02/67] fix: don't optimise tail calls when the stack frame can
 be pointed to

The callee overwrites the caller's frame, so a pointer to a local variable or
array passed to (or stored for) the callee was left dangling.
---
 .../middle_end_optimiser/tail_call_optimise.rs       | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
index 566e59c..5f8340c 100644
--- a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
+++ b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
@@ -8,6 +8,18 @@ pub fn tail_call_optimise(
     param_var_mappings: &[VarId],
     prog_metadata: &mut ProgramMetadata,
 ) {
+    // a tail call reuses this function's stack frame, so it isn't safe if a pointer to
+    // something in this frame could be visible to the callee
+    let frame_can_be_pointed_to = fun_instrs.iter().any(|instr| {
+        matches!(
+            instr,
+            Instruction::AddressOf(..) | Instruction::AllocateVariable(..)
+        )
+    });
+    if frame_can_be_pointed_to {
+        return;
+    }
+
     // find any call instructions that are the last instruction of a function
 
     // instr index, call instr parameters
-- 
2.43.0


From 05ec04ede5a1647f328a5a25851cb2f30bb7736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:56 +0000
Subject: [PATCH 03/67] fix: leave room for the new frame before a tail call's
 temporary params

When the callee needed a bigger frame than the caller's, writing the first new
params overwrote the temporary copies of later ones.
---
 src/back_end/stack_frame_operations.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/back_end/stack_frame_operations.rs b/src/back_end/stack_frame_operations.rs
index d5b2e1b..eb1fbaf 100644
--- a/src/back_end/stack_frame_operations.rs
+++ b/src/back_end/stack_frame_operations.rs
@@ -385,10 +385,23 @@ pub fn overwrite_current_stack_frame_with_new_stack_frame(
     // before we copy them to their new param position
     // use temp_fp to hold the stack ptr value, so we can offset from it while
     // constructing the new stack frame
-    // todo make sure this is definitely after the space for all the new params
     set_temp_frame_ptr_to_stack_ptr(wasm_instrs);
 
+    // the new frame can be larger than the current one, so leave enough of a gap that none of
+    // the new params can overlap the temp space
     let mut temp_stack_ptr_offset = 0;
+    for (param_index, param) in params.iter().enumerate() {
+        let param_type = match (param, param_types.get(param_index)) {
+            (Src::Constant(_), Some(param_type)) => param_type.to_owned(),
+            (Src::Constant(constant), None) => constant.get_type_minimum_i32(),
+            _ => param.get_type(prog_metadata).unwrap(),
+        };
+        temp_stack_ptr_offset += param_type
+            .get_byte_size(prog_metadata)
+            .get_compile_time_value()
+            .unwrap();
+    }
+
     let mut param_var_stack_ptr_offsets = HashMap::new();
     for param_index in 0..params.len() {
         let param = params.get(param_index).unwrap();
-- 
2.43.0


From 5fbdad3a46aafd102067231ffa9838da5fc5c0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:31 +0000
Subject: [PATCH 04/67] fix: give constant args of an optimised tail recursion
 the param's type

The temporary took the constant's own minimal type, so storing it to a wider
param generated an invalid module.
---
 .../middle_end_optimiser/tail_call_optimise.rs        | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
index 5f8340c..4651863 100644
--- a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
+++ b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
@@ -57,11 +57,14 @@ pub fn tail_call_optimise(
                                 for param_i in 0..params.len() {
                                     let new_param_src = params.get(param_i).unwrap();
                                     let temp_var = prog_metadata.new_var(ValueType::RValue);
+                                    // a constant takes the type of the param it's passed to
+                                    let temp_var_type = match new_param_src {
+                                        Src::Constant(_) => prog_metadata
+                                            .get_var_type(param_var_mappings.get(param_i).unwrap()),
+                                        _ => new_param_src.get_type(prog_metadata),
+                                    };
                                     prog_metadata
-                                        .add_var_type(
-                                            temp_var.to_owned(),
-                                            new_param_src.get_type(prog_metadata).unwrap(),
-                                        )
+                                        .add_var_type(temp_var.to_owned(), temp_var_type.unwrap())
                                         .unwrap();
                                     temp_param_vars.push(temp_var.to_owned());
                                     new_instrs.push(Instruction::SimpleAssignment(
-- 
2.43.0


From 3a40b30ad145f5c0fe059a980efc7eecf37a258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 05/67] fix: only rewire the neighbours of an instr removed
 from the flowgraph

remove_instr() overwrote the predecessors and successors of every instr, so the
liveness computed after the first removal was wrong.
---
 src/back_end/dataflow_analysis/flowgraph.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/back_end/dataflow_analysis/flowgraph.rs b/src/back_end/dataflow_analysis/flowgraph.rs
index de93829..9fa02fd 100644
--- a/src/back_end/dataflow_analysis/flowgraph.rs
+++ b/src/back_end/dataflow_analysis/flowgraph.rs
@@ -61,13 +61,16 @@ impl Flowgraph {
         self.successors.remove(instr_id);
         self.predecessors.remove(instr_id);
 
-        for successor_id in self.successors.keys() {
-            self.predecessors
-                .insert(successor_id.to_owned(), predecessors.to_owned());
+        // join each predecessor of the removed instr to each of its successors
+        for successor_id in &successors {
+            let successor_predecessors = self.predecessors.get_mut(successor_id).unwrap();
+            successor_predecessors.remove(instr_id);
+            successor_predecessors.extend(predecessors.to_owned());
         }
-        for predecessor_id in self.predecessors.keys() {
-            self.successors
-                .insert(predecessor_id.to_owned(), successors.to_owned());
+        for predecessor_id in &predecessors {
+            let predecessor_successors = self.successors.get_mut(predecessor_id).unwrap();
+            predecessor_successors.remove(instr_id);
+            predecessor_successors.extend(successors.to_owned());
         }
 
         if self.entries.contains(instr_id) {
-- 
2.43.0


From fe1cef743d44beaa35075b8f2b64430d4699fabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 06/67] fix: keep assignments to address-taken vars in dead
 code analysis

A store to a variable was removed as dead even if it was later read through a
pointer to the variable.
---
 .../dataflow_analysis/dead_code_analysis.rs      | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/back_end/dataflow_analysis/dead_code_analysis.rs b/src/back_end/dataflow_analysis/dead_code_analysis.rs
index 699fa22..be327a7 100644
--- a/src/back_end/dataflow_analysis/dead_code_analysis.rs
+++ b/src/back_end/dataflow_analysis/dead_code_analysis.rs
@@ -1,10 +1,11 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use log::debug;
 
 use crate::back_end::dataflow_analysis::flowgraph::{generate_flowgraph, Flowgraph};
 use crate::back_end::dataflow_analysis::instruction_def_ref::def_set;
 use crate::back_end::dataflow_analysis::live_variable_analysis::live_variable_analysis;
+use crate::middle_end::ids::VarId;
 use crate::middle_end::instructions::Instruction;
 use crate::middle_end::ir::ProgramMetadata;
 use crate::relooper::blocks::Block;
@@ -12,6 +13,14 @@ use crate::relooper::blocks::Block;
 pub fn remove_dead_vars(block: &mut Block, prog_metadata: &mut ProgramMetadata) -> Flowgraph {
     let mut flowgraph = generate_flowgraph(block);
 
+    // a var whose address is taken can be read through a pointer at any point
+    let mut address_taken_vars: HashSet<VarId> = HashSet::new();
+    for instr in flowgraph.instrs.values() {
+        if let Instruction::AddressOf(_, _, src) = instr {
+            address_taken_vars.insert(src.unwrap_var().unwrap());
+        }
+    }
+
     let mut changes = true;
     while changes {
         changes = false;
@@ -30,6 +39,11 @@ pub fn remove_dead_vars(block: &mut Block, prog_metadata: &mut ProgramMetadata)
 
             let mut at_least_one_def_is_live = false;
             for def_var in defs {
+                if address_taken_vars.contains(&def_var) {
+                    at_least_one_def_is_live = true;
+                    break;
+                }
+
                 // if none of the defined vars are live at any of the successors of this instr,
                 // the instr is dead
 
-- 
2.43.0


From 36bd65bffc0c00fe5f89687ec9da380a512967ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:42 +0000
Subject: [PATCH 07/67] fix: share one zero-initialised location per global
 variable

A function assigning to a global got its own shadow copy of it, so the write was
lost, and the globals themselves overlapped the command line arguments that the
runtime puts at the initial top of stack.
---
 .../dataflow_analysis/dead_code_analysis.rs   |  9 ++++--
 src/back_end/initialise_memory.rs             | 13 +++++---
 .../stack_allocation/allocate_vars.rs         | 27 ++++++++---------
 .../stack_allocation/naive_allocation.rs      | 30 +++++++------------
 .../stack_allocation/optimised_allocation.rs  | 11 +++----
 src/back_end/target_code_generation.rs        | 22 +++++++-------
 6 files changed, 58 insertions(+), 54 deletions(-)

diff --git a/src/back_end/dataflow_analysis/dead_code_analysis.rs b/src/back_end/dataflow_analysis/dead_code_analysis.rs
index be327a7..370929d 100644
--- a/src/back_end/dataflow_analysis/dead_code_analysis.rs
+++ b/src/back_end/dataflow_analysis/dead_code_analysis.rs
@@ -10,7 +10,11 @@ use crate::middle_end::instructions::Instruction;
 use crate::middle_end::ir::ProgramMetadata;
 use crate::relooper::blocks::Block;
 
-pub fn remove_dead_vars(block: &mut Block, prog_metadata: &mut ProgramMetadata) -> Flowgraph {
+pub fn remove_dead_vars(
+    block: &mut Block,
+    global_vars: &HashSet<VarId>,
+    prog_metadata: &mut ProgramMetadata,
+) -> Flowgraph {
     let mut flowgraph = generate_flowgraph(block);
 
     // a var whose address is taken can be read through a pointer at any point
@@ -39,7 +43,8 @@ pub fn remove_dead_vars(block: &mut Block, prog_metadata: &mut ProgramMetadata)
 
             let mut at_least_one_def_is_live = false;
             for def_var in defs {
-                if address_taken_vars.contains(&def_var) {
+                // global vars can be read by other functions
+                if address_taken_vars.contains(&def_var) || global_vars.contains(&def_var) {
                     at_least_one_def_is_live = true;
                     break;
                 }
diff --git a/src/back_end/initialise_memory.rs b/src/back_end/initialise_memory.rs
index 5c209bb..68f0f96 100644
--- a/src/back_end/initialise_memory.rs
+++ b/src/back_end/initialise_memory.rs
@@ -15,11 +15,12 @@ use crate::program_config::program_constants::{
 pub fn initialise_memory(
     wasm_module: &mut WasmModule,
     module_context: &mut ModuleContext,
+    global_vars_byte_size: u32,
     prog_metadata: &ProgramMetadata,
 ) -> u32 {
-    // ----------------------------------------------------------
-    // | FP | temp FP | SP | String literals | ...stack frames...
-    // ----------------------------------------------------------
+    // ------------------------------------------------------------------------
+    // | FP | temp FP | SP | String literals | Global vars | ...stack frames...
+    // ------------------------------------------------------------------------
     // initialise with placeholder values for frame ptr and stack ptr
     let mut data: Vec<u8> = vec![0x00; (3 * PTR_SIZE) as usize];
 
@@ -40,6 +41,10 @@ pub fn initialise_memory(
         data.push(0x00);
     }
 
+    // reserve zero-initialised space for global vars, before anything goes on the stack
+    let global_vars_addr = data.len() as u32;
+    data.resize(data.len() + global_vars_byte_size as usize, 0x00);
+
     // set stack ptr to point at top of stack
     let stack_ptr_value = data.len();
     info!("Setting stack ptr to {}", stack_ptr_value);
@@ -69,5 +74,5 @@ pub fn initialise_memory(
     };
     wasm_module.imports_section.imports.push(memory_import);
 
-    stack_ptr_value as u32
+    global_vars_addr
 }
diff --git a/src/back_end/stack_allocation/allocate_vars.rs b/src/back_end/stack_allocation/allocate_vars.rs
index 7832453..9f81730 100644
--- a/src/back_end/stack_allocation/allocate_vars.rs
+++ b/src/back_end/stack_allocation/allocate_vars.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use crate::back_end::memory_constants::PTR_SIZE;
 use crate::back_end::stack_allocation::naive_allocation::{
@@ -20,6 +20,7 @@ pub fn allocate_local_vars(
     wasm_instrs: &mut Vec<WasmInstruction>,
     fun_type: IrType,
     fun_param_var_mappings: Vec<VarId>,
+    global_var_addrs: &VariableAllocationMap,
     module_context: &ModuleContext,
     prog_metadata: &mut ProgramMetadata,
     enabled_optimisations: &EnabledOptimisations,
@@ -55,10 +56,15 @@ pub fn allocate_local_vars(
         offset += param_byte_size as u32;
     }
 
+    let global_vars: HashSet<VarId> = global_var_addrs.keys().cloned().collect();
+    let mut vars_not_to_allocate = fun_param_var_mappings;
+    vars_not_to_allocate.extend(global_vars.iter().cloned());
+
     if enabled_optimisations.is_stack_allocation_optimisation_enabled() {
         optimised_allocate_local_vars(
             block,
-            &fun_param_var_mappings,
+            &global_vars,
+            &vars_not_to_allocate,
             offset,
             var_offsets,
             wasm_instrs,
@@ -68,7 +74,7 @@ pub fn allocate_local_vars(
     } else {
         naive_allocate_local_vars(
             block,
-            &fun_param_var_mappings,
+            &vars_not_to_allocate,
             offset,
             var_offsets,
             wasm_instrs,
@@ -78,18 +84,11 @@ pub fn allocate_local_vars(
     }
 }
 
+/// Returns the offset of each global var from the start of the global vars, and the total
+/// byte size of all the global vars
 pub fn allocate_global_vars(
     block: &Block,
-    initial_top_of_stack_addr: u32,
-    wasm_instrs: &mut Vec<WasmInstruction>,
-    module_context: &ModuleContext,
     prog_metadata: &ProgramMetadata,
-) -> VariableAllocationMap {
-    naive_allocate_global_vars(
-        block,
-        initial_top_of_stack_addr,
-        wasm_instrs,
-        module_context,
-        prog_metadata,
-    )
+) -> (VariableAllocationMap, u32) {
+    naive_allocate_global_vars(block, prog_metadata)
 }
diff --git a/src/back_end/stack_allocation/naive_allocation.rs b/src/back_end/stack_allocation/naive_allocation.rs
index 4e86782..4de9b3f 100644
--- a/src/back_end/stack_allocation/naive_allocation.rs
+++ b/src/back_end/stack_allocation/naive_allocation.rs
@@ -12,7 +12,7 @@ use crate::relooper::blocks::Block;
 
 pub fn naive_allocate_local_vars(
     block: &Block,
-    param_vars_not_to_allocate_again: &Vec<VarId>,
+    vars_not_to_allocate: &Vec<VarId>,
     start_offset: u32,
     mut var_offsets: VariableAllocationMap,
     wasm_instrs: &mut Vec<WasmInstruction>,
@@ -21,9 +21,9 @@ pub fn naive_allocate_local_vars(
 ) -> VariableAllocationMap {
     // get all vars used in this block -- all the variables to allocate
     let mut vars = get_vars_from_block(block, prog_metadata);
-    // remove param vars, cos we don't need to allocate them again
-    for param_var in param_vars_not_to_allocate_again {
-        vars.remove(param_var);
+    // remove param and global vars, cos we don't need to allocate them again
+    for var in vars_not_to_allocate {
+        vars.remove(var);
     }
 
     let mut offset = 0;
@@ -51,19 +51,14 @@ pub fn naive_allocate_local_vars(
 
 pub fn naive_allocate_global_vars(
     block: &Block,
-    initial_top_of_stack_addr: u32,
-    wasm_instrs: &mut Vec<WasmInstruction>,
-    module_context: &ModuleContext,
     prog_metadata: &ProgramMetadata,
-) -> VariableAllocationMap {
+) -> (VariableAllocationMap, u32) {
     let global_vars = get_vars_from_block(block, prog_metadata);
 
-    let mut var_addrs = HashMap::new();
-    let mut addr = initial_top_of_stack_addr;
-    // how much to increment the stack pointer by when we've allocated all vars
-    let mut stack_ptr_increment = 0;
+    let mut var_offsets = HashMap::new();
+    let mut offset = 0;
 
-    // calculate addr of each global var
+    // calculate offset of each global var from the start of the global vars
     for (var_id, var_type) in global_vars {
         let byte_size = match var_type.get_byte_size(prog_metadata) {
             TypeSize::CompileTime(byte_size) => byte_size,
@@ -71,12 +66,9 @@ pub fn naive_allocate_global_vars(
                 unreachable!()
             }
         };
-        var_addrs.insert(var_id, addr);
-        addr += byte_size as u32;
-        stack_ptr_increment += byte_size as u32;
+        var_offsets.insert(var_id, offset);
+        offset += byte_size as u32;
     }
 
-    increment_stack_ptr_by_known_offset(stack_ptr_increment, wasm_instrs, module_context);
-
-    var_addrs
+    (var_offsets, offset)
 }
diff --git a/src/back_end/stack_allocation/optimised_allocation.rs b/src/back_end/stack_allocation/optimised_allocation.rs
index 4ff43a9..a19c9cf 100644
--- a/src/back_end/stack_allocation/optimised_allocation.rs
+++ b/src/back_end/stack_allocation/optimised_allocation.rs
@@ -21,14 +21,15 @@ type VarAllocationStack = Vec<VarAndByteSizePair>;
 
 pub fn optimised_allocate_local_vars(
     block: &mut Block,
-    param_vars_not_to_allocate_again: &Vec<VarId>,
+    global_vars: &HashSet<VarId>,
+    vars_not_to_allocate: &Vec<VarId>,
     start_offset: u32,
     var_offsets: VariableAllocationMap,
     wasm_instrs: &mut Vec<WasmInstruction>,
     module_context: &ModuleContext,
     prog_metadata: &mut ProgramMetadata,
 ) -> VariableAllocationMap {
-    remove_dead_vars(block, prog_metadata);
+    remove_dead_vars(block, global_vars, prog_metadata);
 
     debug!("removed dead vars: {}", block);
 
@@ -38,9 +39,9 @@ pub fn optimised_allocate_local_vars(
 
     // get all vars used in this block -- all the variables to allocate
     let mut vars_to_allocate = get_vars_from_block(block, prog_metadata);
-    // remove param vars, cos we don't need to allocate them again
-    for param_var in param_vars_not_to_allocate_again {
-        vars_to_allocate.remove(param_var);
+    // remove param and global vars, cos we don't need to allocate them again
+    for var in vars_not_to_allocate {
+        vars_to_allocate.remove(var);
     }
 
     // pop vars from clash graph onto a stack
diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index 887ba25..b0c7a01 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -56,12 +56,22 @@ pub fn generate_target_code(
 
     module_context.calculate_func_idxs(&imported_functions, &defined_functions);
 
-    let initial_top_of_stack_addr = initialise_memory(
+    let (mut global_var_addrs, global_vars_byte_size) = match &prog.program_blocks.global_instrs {
+        Some(global_block) => allocate_global_vars(global_block, &prog.program_metadata),
+        None => (HashMap::new(), 0),
+    };
+
+    let global_vars_addr = initialise_memory(
         &mut wasm_module,
         &mut module_context,
+        global_vars_byte_size,
         &prog.program_metadata,
     );
 
+    for addr in global_var_addrs.values_mut() {
+        *addr += global_vars_addr;
+    }
+
     let mut func_idx_to_type_idx_map: HashMap<FuncIdx, TypeIdx> = HashMap::new();
     let mut func_idx_to_body_code_map: HashMap<FuncIdx, WasmExpression> = HashMap::new();
 
@@ -99,16 +109,7 @@ pub fn generate_target_code(
     // set frame ptr to start of this frame
     set_frame_ptr_to_stack_ptr(&mut global_wasm_instrs);
 
-    let mut global_var_addrs = HashMap::new();
     if let Some(global_block) = prog.program_blocks.global_instrs {
-        global_var_addrs = allocate_global_vars(
-            &global_block,
-            initial_top_of_stack_addr,
-            &mut global_wasm_instrs,
-            &module_context,
-            &prog.program_metadata,
-        );
-
         // let var_offsets = allocate_local_vars(
         //     &global_block,
         //     &mut global_wasm_instrs,
@@ -262,6 +263,7 @@ pub fn generate_target_code(
                 &mut function_wasm_instrs,
                 function.type_info,
                 function.param_var_mappings,
+                &global_var_addrs,
                 &module_context,
                 &mut prog.program_metadata,
                 enabled_optimisations,
-- 
2.43.0


From 733d2c4a71766c68820cc6e8a88a49828370ea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 08/67] fix: convert the BigInt value of a printf %c argument
 to a number

String.fromCharCode() throws for a BigInt, so every %c ended the program.
---
 runtime/stdlib/stdio.mjs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/stdlib/stdio.mjs b/runtime/stdlib/stdio.mjs
index 19b5029..98f575d 100644
--- a/runtime/stdlib/stdio.mjs
+++ b/runtime/stdlib/stdio.mjs
@@ -97,7 +97,7 @@ export function printf(wasm_memory) {
                         case "c":
                             // char
                             value = next_vararg_int(I8_SIZE);
-                            value = String.fromCharCode(value);
+                            value = String.fromCharCode(Number(value));
                             break;
                         case "s":
                             // string
-- 
2.43.0


From 03d93b83624d2d34d66818e3001606df48dee995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 09/67] fix: short-circuit logical AND and OR

Both operands were always evaluated, so side effects of the right operand
happened even when the left one already decided the result.
---
 src/middle_end/ast_to_ir.rs | 77 +++++++++++++++++++++++++------------
 1 file changed, 52 insertions(+), 25 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 6b59e47..2ac9b0c 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1554,6 +1554,56 @@ pub fn convert_expression_to_ir(
             ));
             Ok((instrs, Src::Var(dest)))
         }
+        Expression::BinaryOp(
+            op @ (BinaryOperator::LogicalAnd | BinaryOperator::LogicalOr),
+            left,
+            right,
+        ) => {
+            // the right operand must only be evaluated if the left one doesn't already
+            // determine the result
+            let is_and = matches!(op, BinaryOperator::LogicalAnd);
+            let (short_circuit_result, full_result) = if is_and { (0, 1) } else { (1, 0) };
+            let end_label = prog.new_label();
+            let new_branch_to_end = |prog: &mut Program, src: Src| {
+                let zero = Src::Constant(Constant::Int(0));
+                if is_and {
+                    Instruction::BrIfEq(prog.new_instr_id(), src, zero, end_label.to_owned())
+                } else {
+                    Instruction::BrIfNotEq(prog.new_instr_id(), src, zero, end_label.to_owned())
+                }
+            };
+
+            let (mut left_instrs, left_var) = convert_expression_to_ir(*left, prog, context)?;
+            instrs.append(&mut left_instrs);
+            left_var
+                .get_type(&prog.program_metadata)?
+                .require_scalar_type()?;
+
+            // result is always int 0 or 1
+            let dest = prog.new_var(ValueType::RValue);
+            prog.add_var_type(dest.to_owned(), IrType::I32)?;
+            instrs.push(Instruction::SimpleAssignment(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                Src::Constant(Constant::Int(short_circuit_result)),
+            ));
+            instrs.push(new_branch_to_end(prog, left_var));
+
+            let (mut right_instrs, right_var) = convert_expression_to_ir(*right, prog, context)?;
+            instrs.append(&mut right_instrs);
+            right_var
+                .get_type(&prog.program_metadata)?
+                .require_scalar_type()?;
+            instrs.push(new_branch_to_end(prog, right_var));
+
+            instrs.push(Instruction::SimpleAssignment(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                Src::Constant(Constant::Int(full_result)),
+            ));
+            instrs.push(Instruction::Label(prog.new_instr_id(), end_label));
+            Ok((instrs, Src::Var(dest)))
+        }
         Expression::BinaryOp(op, left, right) => {
             let (mut left_instrs, left_var) = convert_expression_to_ir(*left, prog, context)?;
             instrs.append(&mut left_instrs);
@@ -1968,31 +2018,8 @@ pub fn convert_expression_to_ir(
                         right_var,
                     ));
                 }
-                BinaryOperator::LogicalAnd => {
-                    // no binary conversion for logical AND and OR
-                    left_var_type.require_scalar_type()?;
-                    right_var_type.require_scalar_type()?;
-                    // result is always int 0 or 1
-                    prog.add_var_type(dest.to_owned(), IrType::I32)?;
-                    instrs.push(Instruction::LogicalAnd(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        left_var,
-                        right_var,
-                    ));
-                }
-                BinaryOperator::LogicalOr => {
-                    // no binary conversion for logical AND and OR
-                    left_var_type.require_scalar_type()?;
-                    right_var_type.require_scalar_type()?;
-                    // result is always int 0 or 1
-                    prog.add_var_type(dest.to_owned(), IrType::I32)?;
-                    instrs.push(Instruction::LogicalOr(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        left_var,
-                        right_var,
-                    ));
+                BinaryOperator::LogicalAnd | BinaryOperator::LogicalOr => {
+                    unreachable!("logical AND and OR handled separately")
                 }
             }
             Ok((instrs, Src::Var(dest)))
-- 
2.43.0


From 54979d4b529297986947e6ecf0bf44d5c2c27157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:39 +0000
Subject: [PATCH 10/67] fix: make the result of logical NOT an int

It took the operand's type, so negating a long or a double stored an i32 as that
type and generated an invalid module.
---
 src/back_end/target_code_generation.rs | 6 +++---
 src/middle_end/ast_to_ir.rs            | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index b0c7a01..3c8c9db 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -637,12 +637,12 @@ fn convert_ir_instr_to_wasm(
             // logical not is implemented as a test-for-zero and set
             //
             // load src
-            let dest_type = prog_metadata.get_var_type(&dest).unwrap();
+            let src_type = src.get_type(prog_metadata).unwrap();
 
             let mut temp_instrs = Vec::new();
             load_src(
                 src,
-                dest_type.to_owned(),
+                src_type.to_owned(),
                 &mut temp_instrs,
                 function_context,
                 prog_metadata,
@@ -650,7 +650,7 @@ fn convert_ir_instr_to_wasm(
 
             // logical not
             // test if src is zero
-            match dest_type {
+            match src_type {
                 IrType::I8
                 | IrType::U8
                 | IrType::I16
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 2ac9b0c..66ce4a2 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1491,8 +1491,8 @@ pub fn convert_expression_to_ir(
                             "Logical not of a non-scalar type",
                         ));
                     }
-                    // dest type is same as src
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
+                    // result is always int 0 or 1
+                    prog.add_var_type(dest.to_owned(), IrType::I32)?;
                     Ok((instrs, Src::Var(dest)))
                 }
                 _ => unreachable!("other cases handled separately"),
-- 
2.43.0


From 792ee46a2f4f71b6ab02e89b51428d6e3ef76f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:32 +0000
Subject: [PATCH 11/67] fix: report errors reading a source or header file

Lines that couldn't be read were silently skipped, so the rest of the file was
compiled without them, and a persistent error looped forever.
---
 src/preprocessor.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/preprocessor.rs b/src/preprocessor.rs
index 5957077..19e73d3 100644
--- a/src/preprocessor.rs
+++ b/src/preprocessor.rs
@@ -38,15 +38,14 @@ fn remove_include_directives(filepath: &Path) -> Result<(String, Vec<String>), P
     match read_lines(filepath) {
         Ok(lines) => {
             for line in lines {
-                if let Ok(l) = line {
-                    // check if line is a #include directive
-                    if let Some(include) = check_for_include(&l) {
-                        includes.push(include);
-                        continue;
-                    }
-                    output.push_str(&l);
-                    output.push('\n');
+                let l = line.map_err(PreprocessorError::IoError)?;
+                // check if line is a #include directive
+                if let Some(include) = check_for_include(&l) {
+                    includes.push(include);
+                    continue;
                 }
+                output.push_str(&l);
+                output.push('\n');
             }
             Ok((output, includes))
         }
-- 
2.43.0


From d1169dd9e2123b79336c5d1eaa3b74a3c175477d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:32 +0000
Subject: [PATCH 12/67] fix: emit a data count section so a truncated module is
 invalid

The data section comes last, so a file cut off just before it was still a valid
module, which ran with no strings and an uninitialised stack pointer.
---
 src/back_end/wasm_module/data_section.rs | 7 +++++++
 src/back_end/wasm_module/module.rs       | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/src/back_end/wasm_module/data_section.rs b/src/back_end/wasm_module/data_section.rs
index 3146644..1f4d41d 100644
--- a/src/back_end/wasm_module/data_section.rs
+++ b/src/back_end/wasm_module/data_section.rs
@@ -15,6 +15,13 @@ impl DataSection {
             data_segments: Vec::new(),
         }
     }
+
+    /// The data count section, which states the number of data segments before the code section
+    pub fn data_count_to_bytes(&self) -> Vec<u8> {
+        let body_bytes = encode_unsigned_int(self.data_segments.len() as u128);
+
+        encode_section(0x0c, body_bytes)
+    }
 }
 
 impl ToBytes for DataSection {
diff --git a/src/back_end/wasm_module/module.rs b/src/back_end/wasm_module/module.rs
index 99c7edc..66c1753 100644
--- a/src/back_end/wasm_module/module.rs
+++ b/src/back_end/wasm_module/module.rs
@@ -155,6 +155,8 @@ impl ToBytes for WasmModule {
         bytes.append(&mut self.exports_section.to_bytes());
         bytes.append(&mut self.start_section.to_bytes());
         bytes.append(&mut self.element_section.to_bytes());
+        // the data count makes the module invalid if the file gets cut off before the data section
+        bytes.append(&mut self.data_section.data_count_to_bytes());
         bytes.append(&mut self.code_section.to_bytes());
         bytes.append(&mut self.data_section.to_bytes());
 
-- 
2.43.0


From caea46e449228c8b41fb24a15075c3fb78048e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:32 +0000
Subject: [PATCH 13/67] fix: reject program arguments that don't fit in memory

The bytes past the end of memory were dropped, so the program saw truncated
arguments.
---
 runtime/init_memory.mjs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/init_memory.mjs b/runtime/init_memory.mjs
index 62c9b4d..d2ca05a 100644
--- a/runtime/init_memory.mjs
+++ b/runtime/init_memory.mjs
@@ -28,6 +28,11 @@ export const put_args_into_memory = (args, wasm_memory) => {
         stack_ptr += 1;
     }
 
+    // writes past the end of memory are silently ignored
+    if (stack_ptr > memory.length) {
+        throw new RangeError("Program arguments don't fit in memory");
+    }
+
     store_stack_ptr(stack_ptr, memory);
 
     return {argc, argv};
-- 
2.43.0


From b8c1b23ac628bf4baa8d42be00ac103a64ba4ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:19 +0000
Subject: [PATCH 14/67] fix: report stack pointer logging errors on stderr

On stdout they were mixed in with the output of the profiled program.
---
 runtime/profiler.mjs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/profiler.mjs b/runtime/profiler.mjs
index 2fac831..68cf4a2 100644
--- a/runtime/profiler.mjs
+++ b/runtime/profiler.mjs
@@ -28,7 +28,7 @@ export function log_stack_ptr(wasm_memory, log_file_path) {
         try {
             appendFileSync(log_file_path, data);
         } catch (err) {
-            console.log(`Error logging stack pointer: ${err}`);
+            console.error(`Error logging stack pointer: ${err}`);
         }
     }
 }
-- 
2.43.0


From 68b193b351fe5d52207fc5c56a71c78756235a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:19 +0000
Subject: [PATCH 15/67] fix: write printf output as the bytes of the string

Bytes above 0x7f were written as two-byte UTF-8 sequences, so any non-ASCII
string came out garbled.
---
 runtime/stdlib/stdio.mjs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/stdlib/stdio.mjs b/runtime/stdlib/stdio.mjs
index 98f575d..e674073 100644
--- a/runtime/stdlib/stdio.mjs
+++ b/runtime/stdlib/stdio.mjs
@@ -118,7 +118,8 @@ export function printf(wasm_memory) {
             c = next_char();
         }
 
-        process.stdout.write(str); // only works in node.js, use console.log otherwise, but that prints newline
+        // each char of str is one byte of output
+        process.stdout.write(Buffer.from(str, "latin1")); // only works in node.js, use console.log otherwise, but that prints newline
 
         // write return value
         store_int(fp + PTR_SIZE, I32_SIZE, 0n, memory);
-- 
2.43.0


From 68b7b9c0a4b94c206753ce3a16819a9cdc59173c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:22 +0000
Subject: [PATCH 16/67] fix: allocate constant-size arrays once per call, not
 once per loop iteration

---
 src/middle_end/ast_to_ir.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 66ce4a2..e97ae20 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -683,6 +683,13 @@ fn convert_statement_to_ir(
             context.add_function_declaration(name.to_owned(), fun_id)?;
             // function body instructions
             let instrs = convert_statement_to_ir(*body, prog, context)?;
+            // allocate variables of constant size once per call, at the start of the function,
+            // so that reaching a declaration again (eg. in a loop) doesn't allocate more stack
+            let (mut instrs, mut body_instrs): (Vec<_>, Vec<_>) =
+                instrs.into_iter().partition(|instr| {
+                    matches!(instr, Instruction::AllocateVariable(_, _, Src::Constant(_)))
+                });
+            instrs.append(&mut body_instrs);
             // update function in program with full body
             let fun = Function::new(instrs, type_info, param_var_mappings);
             prog.new_fun_body(name, fun)?;
-- 
2.43.0


From 5fe97fc48ecabc1987180620551ff19e142ccd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:22 +0000
Subject: [PATCH 17/67] fix: correct the value of UINT_MAX

---
 headers/limits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/headers/limits.h b/headers/limits.h
index a8ae41d..a934901 100644
--- a/headers/limits.h
+++ b/headers/limits.h
@@ -14,7 +14,7 @@
 
 #define INT_MIN -2147483648
 #define INT_MAX 2147483647
-#define UINT_MAX 4294967296
+#define UINT_MAX 4294967295
 
 #define LONG_MIN -9223372036854775808
 #define LONG_MAX 9223372036854775807
-- 
2.43.0


From 2bd92f1a15ef78400b2aa844c8e546242be06528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:39 +0000
Subject: [PATCH 18/67] fix: parse strtol and strtoul values and end pointers
 as C does

---
 runtime/stdlib/stdlib.mjs | 67 +++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 23 deletions(-)

diff --git a/runtime/stdlib/stdlib.mjs b/runtime/stdlib/stdlib.mjs
index e15cdea..eaf3b5e 100644
--- a/runtime/stdlib/stdlib.mjs
+++ b/runtime/stdlib/stdlib.mjs
@@ -2,6 +2,43 @@ import {I32_SIZE, I64_SIZE, NULL, PTR_SIZE} from "../memory_constants.mjs";
 import {read_frame_ptr, read_int, read_ptr, read_string, store_int, store_ptr} from "../memory_operations.mjs";
 import {signed_to_unsigned_i64} from "../number_operations.mjs";
 
+const LONG_MIN = -(2n ** 63n);
+const LONG_MAX = 2n ** 63n - 1n;
+const ULONG_MAX = 2n ** 64n - 1n;
+
+// parse the integer at the start of a string
+// length is the number of chars up to the end of the integer, or 0 if there isn't one
+function parse_integer(str, base) {
+    const [prefix, sign] = /^[ \t\n\v\f\r]*([+-]?)/.exec(str);
+    let i = prefix.length;
+
+    const digit_at = (index) => {
+        const digit = /^[0-9a-z]$/i.test(str[index]) ? parseInt(str[index], 36) : NaN;
+        return digit < base ? digit : NaN;
+    };
+
+    // optional prefix, and base 0 takes its value from the prefix
+    const has_hex_prefix = /^0x[0-9a-f]/i.test(str.slice(i));
+    if (has_hex_prefix && (base === 0 || base === 16)) {
+        base = 16;
+        i += 2;
+    } else if (base === 0) {
+        base = str[i] === "0" ? 8 : 10;
+    }
+
+    const digits_start = i;
+    let value = 0n;
+    while (!Number.isNaN(digit_at(i))) {
+        value = value * BigInt(base) + BigInt(digit_at(i));
+        i++;
+    }
+
+    return {
+        value: sign === "-" ? -value : value,
+        length: i > digits_start ? i : 0,
+    };
+}
+
 // long strtol(const char *str, char **endptr, int base);
 export function strtol(wasm_memory) {
     return () => {
@@ -17,19 +54,11 @@ export function strtol(wasm_memory) {
 
         const str = read_string(str_ptr, memory);
 
-        const result = BigInt(parseInt(str, Number(base)));
+        const {value, length} = parse_integer(str, Number(base));
+        const result = value > LONG_MAX ? LONG_MAX : value < LONG_MIN ? LONG_MIN : value;
 
         if (end_ptr != NULL) {
-            let i = 0;
-            // skip initial whitespace
-            while (i < str.length && /\s/.test(str[i])) {
-                i++;
-            }
-            // skip to end of number
-            while (i < str.length && str[i] >= "0" && str[i] <= "9") {
-                i++;
-            }
-            let end_ptr_value = str_ptr + i;
+            let end_ptr_value = str_ptr + length;
             store_ptr(end_ptr, end_ptr_value, memory);
         }
 
@@ -53,20 +82,12 @@ export function strtoul(wasm_memory) {
 
         const str = read_string(str_ptr, memory);
 
-        const result = parseInt(str, Number(base));
-        const unsigned_result = signed_to_unsigned_i64(BigInt(result));
+        const {value, length} = parse_integer(str, Number(base));
+        const out_of_range = value > ULONG_MAX || value < -ULONG_MAX;
+        const unsigned_result = out_of_range ? ULONG_MAX : signed_to_unsigned_i64(value);
 
         if (end_ptr != NULL) {
-            let i = 0;
-            // skip initial whitespace
-            while (i < str.length && /\s/.test(str[i])) {
-                i++;
-            }
-            // skip to end of number
-            while (i < str.length && str[i] >= "0" && str[i] <= "9") {
-                i++;
-            }
-            let end_ptr_value = str_ptr + i;
+            let end_ptr_value = str_ptr + length;
             store_ptr(end_ptr, end_ptr_value, memory);
         }
 
-- 
2.43.0


From 9272c64eb4fef1dbee413e1ff613be0e780e4c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:39 +0000
Subject: [PATCH 19/67] fix: return the number of bytes written from printf

---
 runtime/stdlib/stdio.mjs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/stdlib/stdio.mjs b/runtime/stdlib/stdio.mjs
index e674073..e25f850 100644
--- a/runtime/stdlib/stdio.mjs
+++ b/runtime/stdlib/stdio.mjs
@@ -122,6 +122,6 @@ export function printf(wasm_memory) {
         process.stdout.write(Buffer.from(str, "latin1")); // only works in node.js, use console.log otherwise, but that prints newline
 
         // write return value
-        store_int(fp + PTR_SIZE, I32_SIZE, 0n, memory);
+        store_int(fp + PTR_SIZE, I32_SIZE, BigInt(str.length), memory);
     };
 }
-- 
2.43.0


From b3d3b704e315179fe4d1676fe61b606313b8c77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:31 +0000
Subject: [PATCH 20/67] fix: repeat dead code analysis until no more instrs are
 removed

---
 src/back_end/dataflow_analysis/dead_code_analysis.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/back_end/dataflow_analysis/dead_code_analysis.rs b/src/back_end/dataflow_analysis/dead_code_analysis.rs
index 370929d..f8f5421 100644
--- a/src/back_end/dataflow_analysis/dead_code_analysis.rs
+++ b/src/back_end/dataflow_analysis/dead_code_analysis.rs
@@ -93,6 +93,11 @@ pub fn remove_dead_vars(
             }
         }
 
+        // removing an instr can make the instrs that define the vars it used dead too
+        if !remove_instrs.is_empty() {
+            changes = true;
+        }
+
         for instr_id in remove_instrs {
             flowgraph.remove_instr(&instr_id);
             block.remove_instr(&instr_id);
-- 
2.43.0


From 6c9c3e46ff35e9df8b7922c48b2e3eee75e84a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:31 +0000
Subject: [PATCH 21/67] fix: sign extend when converting char and short to
 wider unsigned types and double

---
 src/middle_end/type_conversions.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/type_conversions.rs b/src/middle_end/type_conversions.rs
index 5f140c9..2d1326c 100644
--- a/src/middle_end/type_conversions.rs
+++ b/src/middle_end/type_conversions.rs
@@ -321,7 +321,8 @@ pub fn get_type_conversion_instrs(
         (IrType::I8, dest_type) => {
             let intermediate_var = prog.new_var(src.get_value_type());
             let intermediate_type;
-            if dest_type.is_signed_integral() {
+            // keep the sign when extending to any wider type
+            if dest_type != IrType::U16 {
                 instrs.push(Instruction::I8toI16(
                     prog.new_instr_id(),
                     intermediate_var.to_owned(),
@@ -385,7 +386,8 @@ pub fn get_type_conversion_instrs(
         (IrType::I16, dest_type) => {
             let intermediate_var = prog.new_var(src.get_value_type());
             let intermediate_type;
-            if dest_type.is_signed_integral() {
+            // keep the sign when extending to any wider type
+            if dest_type != IrType::U32 {
                 instrs.push(Instruction::I16toI32(
                     prog.new_instr_id(),
                     intermediate_var.to_owned(),
-- 
2.43.0


From fe107ea78b9ccd2639a06d7d8c716bf62719cab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:06 +0000
Subject: [PATCH 22/67] fix: keep the instrs of nested statements in order
 inside a switch

---
 src/middle_end/ast_to_ir.rs        | 37 ++++++---------------
 src/middle_end/context.rs          | 52 +-----------------------------
 src/middle_end/middle_end_error.rs |  1 -
 3 files changed, 11 insertions(+), 79 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index e97ae20..761ed70 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -273,9 +273,9 @@ fn convert_statement_to_ir(
                 Src::Fun(_) | Src::StoreAddressVar(_) => unreachable!(),
             };
             context.push_switch(SwitchContext::new(switch_end_label.to_owned(), switch_var));
-            // convert switch body - ignore the return, because the instrs will
-            // be stored into the SwitchContext, and we'll get them from there after
-            convert_statement_to_ir(*body, prog, context)?;
+            // convert switch body - the case conditions are stored into the SwitchContext,
+            // and we'll get them from there after
+            let mut body_instrs = convert_statement_to_ir(*body, prog, context)?;
 
             let mut switch_context = context.pop_switch()?;
 
@@ -297,9 +297,7 @@ fn convert_statement_to_ir(
             }
 
             // add case bodies
-            for mut case_body_instrs in switch_context.case_blocks {
-                instrs.append(&mut case_body_instrs);
-            }
+            instrs.append(&mut body_instrs);
 
             // end of switch label
             instrs.push(Instruction::Label(prog.new_instr_id(), switch_end_label));
@@ -327,28 +325,18 @@ fn convert_statement_to_ir(
                         expr_var,
                         case_body_label.to_owned(),
                     ));
-                    context.new_switch_case_block(
-                        case_body_label,
-                        condition_instrs,
-                        &mut prog.program_metadata,
-                    )?;
-                    // start of case body - the result of this will be automatically pushed to
-                    // the case block we just created, because we're in a switch context
-                    convert_statement_to_ir(*stmt, prog, context)?;
-                    return Ok(instrs);
+                    context.add_switch_case_condition(condition_instrs)?;
+                    // start of case body
+                    instrs.push(Instruction::Label(prog.new_instr_id(), case_body_label));
+                    instrs.append(&mut convert_statement_to_ir(*stmt, prog, context)?);
                 }
                 LabelledStatement::Default(stmt) => {
                     let case_body_label = prog.new_label();
                     context.add_default_switch_block_label(case_body_label.to_owned())?;
                     // default case has no condition instruction to add, because it'll get added
                     // at the end of converting the whole switch statement
-                    context.new_switch_case_block(
-                        case_body_label,
-                        Vec::new(),
-                        &mut prog.program_metadata,
-                    )?;
-                    convert_statement_to_ir(*stmt, prog, context)?;
-                    return Ok(instrs);
+                    instrs.push(Instruction::Label(prog.new_instr_id(), case_body_label));
+                    instrs.append(&mut convert_statement_to_ir(*stmt, prog, context)?);
                 }
             }
         }
@@ -698,11 +686,6 @@ fn convert_statement_to_ir(
         Statement::Empty => {}
     }
 
-    if context.is_in_switch_context() {
-        context.push_instrs_to_switch_case_block(instrs)?;
-        return Ok(Vec::new());
-    }
-
     Ok(instrs)
 }
 
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 364dd08..0980eef 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -4,7 +4,6 @@ use log::trace;
 
 use crate::middle_end::ids::{FunId, LabelId, StructId, UnionId, VarId};
 use crate::middle_end::instructions::Instruction;
-use crate::middle_end::ir::ProgramMetadata;
 use crate::middle_end::ir_types::{EnumConstant, IrType};
 use crate::middle_end::middle_end_error::MiddleEndError;
 
@@ -118,11 +117,9 @@ impl Context {
         }
     }
 
-    pub fn new_switch_case_block(
+    pub fn add_switch_case_condition(
         &mut self,
-        case_body_label: LabelId,
         mut case_condition_instrs: Vec<Instruction>,
-        prog_metadata: &mut ProgramMetadata,
     ) -> Result<(), MiddleEndError> {
         if self.loop_stack.is_empty() {
             return Err(MiddleEndError::CaseOutsideSwitchContext);
@@ -134,13 +131,6 @@ impl Context {
                 Some(loop_or_switch_context) => match loop_or_switch_context {
                     LoopOrSwitchContext::Loop(_) => {}
                     LoopOrSwitchContext::Switch(switch_context) => {
-                        // every case block must have a label so it can be jumped to,
-                        // so enforce that by adding it here
-                        let case_instrs = vec![Instruction::Label(
-                            prog_metadata.new_instr_id(),
-                            case_body_label,
-                        )];
-                        switch_context.case_blocks.push(case_instrs);
                         switch_context
                             .case_condition_instrs
                             .append(&mut case_condition_instrs);
@@ -155,31 +145,6 @@ impl Context {
         }
     }
 
-    pub fn push_instrs_to_switch_case_block(
-        &mut self,
-        instrs: Vec<Instruction>,
-    ) -> Result<(), MiddleEndError> {
-        if self.loop_stack.is_empty() {
-            return Err(MiddleEndError::CaseOutsideSwitchContext);
-        }
-        let mut i = self.loop_stack.len() - 1;
-        loop {
-            match self.loop_stack.get_mut(i) {
-                None => return Err(MiddleEndError::CaseOutsideSwitchContext),
-                Some(loop_or_switch_context) => match loop_or_switch_context {
-                    LoopOrSwitchContext::Loop(_) => {}
-                    LoopOrSwitchContext::Switch(switch_context) => {
-                        return switch_context.push_instrs_to_last_case_block(instrs);
-                    }
-                },
-            }
-            if i == 0 {
-                return Err(MiddleEndError::CaseOutsideSwitchContext);
-            }
-            i -= 1;
-        }
-    }
-
     pub fn add_default_switch_block_label(&mut self, label: LabelId) -> Result<(), MiddleEndError> {
         if self.loop_stack.is_empty() {
             return Err(MiddleEndError::DefaultOutsideSwitchContext);
@@ -635,7 +600,6 @@ pub struct SwitchContext {
     pub end_label: LabelId,
     pub switch_var: VarId,
     pub case_condition_instrs: Vec<Instruction>,
-    pub case_blocks: Vec<Vec<Instruction>>,
     pub default_block_label: Option<LabelId>,
 }
 
@@ -645,24 +609,10 @@ impl SwitchContext {
             end_label,
             switch_var,
             case_condition_instrs: Vec::new(),
-            case_blocks: Vec::new(),
             default_block_label: None,
         }
     }
 
-    fn push_instrs_to_last_case_block(
-        &mut self,
-        mut instrs: Vec<Instruction>,
-    ) -> Result<(), MiddleEndError> {
-        match self.case_blocks.last_mut() {
-            None => Err(MiddleEndError::NoCaseBlockToPushInstructionTo),
-            Some(block_instrs) => {
-                block_instrs.append(&mut instrs);
-                Ok(())
-            }
-        }
-    }
-
     fn add_default_block_label(&mut self, label: LabelId) -> Result<(), MiddleEndError> {
         match self.default_block_label {
             None => {
diff --git a/src/middle_end/middle_end_error.rs b/src/middle_end/middle_end_error.rs
index 11180d2..e63c39b 100644
--- a/src/middle_end/middle_end_error.rs
+++ b/src/middle_end/middle_end_error.rs
@@ -12,7 +12,6 @@ pub enum MiddleEndError {
     CaseOutsideSwitchContext,
     DefaultOutsideSwitchContext,
     MultipleDefaultCasesInSwitch,
-    NoCaseBlockToPushInstructionTo,
     /// in theory this should never occur
     LoopNestingError,
     UndeclaredIdentifier(String),
-- 
2.43.0


From e13c171ec8ff6170cd0c3b14d49819379ace4e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:06 +0000
Subject: [PATCH 23/67] fix: drop unreachable instrs after an unconditional
 branch

---
 src/relooper/soupify.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/relooper/soupify.rs b/src/relooper/soupify.rs
index 01131cd..1fdf9dd 100644
--- a/src/relooper/soupify.rs
+++ b/src/relooper/soupify.rs
@@ -17,6 +17,7 @@ pub fn soupify(
         !instrs.is_empty(),
         "List of instructions to soupify should be non-empty"
     );
+    remove_instrs_after_branch(&mut instrs);
     remove_label_fallthrough(&mut instrs, prog_metadata);
     add_block_gap_labels_after_conditionals(&mut instrs, prog_metadata);
     insert_entry_label_if_necessary(&mut instrs, prog_metadata);
@@ -120,6 +121,19 @@ fn remove_consecutive_labels(instrs: &mut Vec<Instruction>) {
     })
 }
 
+/// Remove any instructions after an unconditional branch and before the next label,
+/// which can never be reached, so that a block only ever ends with a branch
+fn remove_instrs_after_branch(instrs: &mut Vec<Instruction>) {
+    let mut prev_instr_was_branch = false;
+    instrs.retain(|instr| {
+        if prev_instr_was_branch && !matches!(instr, Instruction::Label(..)) {
+            return false;
+        }
+        prev_instr_was_branch = matches!(instr, Instruction::Br(..));
+        true
+    })
+}
+
 /// Make sure that there is no fall-through from one block to the next, by adding
 /// branch instructions where fall-through exists. This adds a lot of redundant
 /// branch instructions, but this will allow us to split the instructions into a soup of blocks.
-- 
2.43.0


From 6f90c71473a860de6e3662e8a5e0b4540e85d2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:40 +0000
Subject: [PATCH 24/67] fix: give constants the C type for their value and
 convert them at compile time

---
 src/middle_end/instructions.rs     | 12 ++++++------
 src/middle_end/type_conversions.rs | 23 ++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/middle_end/instructions.rs b/src/middle_end/instructions.rs
index dc5bfdd..a3c273d 100644
--- a/src/middle_end/instructions.rs
+++ b/src/middle_end/instructions.rs
@@ -27,10 +27,10 @@ impl Constant {
                     -128..=127 => IrType::I8,
                     0..=65_535 => IrType::U16,
                     -32_768..=32_767 => IrType::I16,
-                    0..=4_294_967_296 => IrType::U32,
                     -2_147_483_648..=2_147_483_647 => IrType::I32,
-                    0..=18_446_744_073_709_551_615 => IrType::U64,
-                    _ => IrType::I64,
+                    0..=4_294_967_295 => IrType::U32,
+                    -9_223_372_036_854_775_808..=9_223_372_036_854_775_807 => IrType::I64,
+                    _ => IrType::U64,
                 }
             }
             Constant::Float(_) => IrType::F64,
@@ -40,10 +40,10 @@ impl Constant {
     pub fn get_type_minimum_i32(&self) -> IrType {
         match self {
             Constant::Int(i) => match i {
-                0..=4_294_967_296 => IrType::U32,
                 -2_147_483_648..=2_147_483_647 => IrType::I32,
-                0..=18_446_744_073_709_551_615 => IrType::U64,
-                _ => IrType::I64,
+                0..=4_294_967_295 => IrType::U32,
+                -9_223_372_036_854_775_808..=9_223_372_036_854_775_807 => IrType::I64,
+                _ => IrType::U64,
             },
             Constant::Float(_) => IrType::F64,
         }
diff --git a/src/middle_end/type_conversions.rs b/src/middle_end/type_conversions.rs
index 2d1326c..d545989 100644
--- a/src/middle_end/type_conversions.rs
+++ b/src/middle_end/type_conversions.rs
@@ -1,6 +1,6 @@
 use log::trace;
 
-use crate::middle_end::instructions::{Instruction, Src};
+use crate::middle_end::instructions::{Constant, Instruction, Src};
 use crate::middle_end::ir::Program;
 use crate::middle_end::ir_types::IrType;
 use crate::middle_end::middle_end_error::MiddleEndError;
@@ -316,6 +316,27 @@ pub fn get_type_conversion_instrs(
     if src_type == dest_type {
         return Ok((instrs, src));
     }
+    // the value of a constant converted to an integral type is known at compile time
+    if let (Src::Constant(Constant::Int(i)), true) = (&src, dest_type.is_integral_type()) {
+        let value = match dest_type {
+            IrType::I8 => *i as i8 as i128,
+            IrType::U8 => *i as u8 as i128,
+            IrType::I16 => *i as i16 as i128,
+            IrType::U16 => *i as u16 as i128,
+            IrType::I32 => *i as i32 as i128,
+            IrType::U32 => *i as u32 as i128,
+            IrType::I64 => *i as i64 as i128,
+            _ => *i as u64 as i128,
+        };
+        let dest = prog.new_var(src.get_value_type());
+        prog.add_var_type(dest.to_owned(), dest_type)?;
+        instrs.push(Instruction::SimpleAssignment(
+            prog.new_instr_id(),
+            dest.to_owned(),
+            Src::Constant(Constant::Int(value)),
+        ));
+        return Ok((instrs, Src::Var(dest)));
+    }
     match (src_type, dest_type) {
         // char promotions
         (IrType::I8, dest_type) => {
-- 
2.43.0


From 3aebd3c7e0a6c5900684d2c744e1411e614a02ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:42 +0000
Subject: [PATCH 25/67] fix: keep the type of negated unsigned vars and negate
 doubles

---
 src/middle_end/ast_to_ir.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 761ed70..334a895 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1421,10 +1421,14 @@ pub fn convert_expression_to_ir(
                 // }
                 UnaryOperator::Plus => {
                     let dest = prog.new_var(ValueType::RValue);
+                    let zero = match expr_var_type {
+                        IrType::F32 | IrType::F64 => Constant::Float(-0.),
+                        _ => Constant::Int(0),
+                    };
                     instrs.push(Instruction::Add(
                         prog.new_instr_id(),
                         dest.to_owned(),
-                        Src::Constant(Constant::Int(0)),
+                        Src::Constant(zero),
                         expr_var,
                     ));
                     if !expr_var_type.is_arithmetic_type() {
@@ -1438,18 +1442,26 @@ pub fn convert_expression_to_ir(
                 }
                 UnaryOperator::Minus => {
                     let dest = prog.new_var(ValueType::RValue);
-                    instrs.push(Instruction::Sub(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Constant(Constant::Int(0)),
-                        expr_var,
-                    ));
                     if !expr_var_type.is_arithmetic_type() {
                         return Err(MiddleEndError::InvalidOperation(
                             "Unary minus of a non-arithmetic type",
                         ));
                     }
-                    let dest_type = expr_var_type.smallest_signed_equivalent()?;
+                    // the negative of a constant may need a larger type than the constant
+                    let dest_type = match &expr_var {
+                        Src::Constant(_) => expr_var_type.smallest_signed_equivalent()?,
+                        _ => expr_var_type,
+                    };
+                    let zero = match dest_type {
+                        IrType::F32 | IrType::F64 => Constant::Float(-0.),
+                        _ => Constant::Int(0),
+                    };
+                    instrs.push(Instruction::Sub(
+                        prog.new_instr_id(),
+                        dest.to_owned(),
+                        Src::Constant(zero),
+                        expr_var,
+                    ));
                     prog.add_var_type(dest.to_owned(), dest_type)?;
                     Ok((instrs, Src::Var(dest)))
                 }
-- 
2.43.0


From b9dbc220cae528acb27d4c47d83818a789299686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:04 +0000
Subject: [PATCH 26/67] fix: promote variadic char, short and float arguments

---
 runtime/stdlib/stdio.mjs    | 10 +++++-----
 src/middle_end/ast_to_ir.rs | 24 ++++++++++++++++++++++--
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/runtime/stdlib/stdio.mjs b/runtime/stdlib/stdio.mjs
index e25f850..de51c1f 100644
--- a/runtime/stdlib/stdio.mjs
+++ b/runtime/stdlib/stdio.mjs
@@ -1,9 +1,7 @@
 import {
     F64_SIZE,
-    I16_SIZE,
     I32_SIZE,
     I64_SIZE,
-    I8_SIZE,
     PTR_SIZE,
 } from "../memory_constants.mjs";
 import {
@@ -74,7 +72,8 @@ export function printf(wasm_memory) {
                             if (c != "i" && c != "d" && c != "u") {
                                 console.log("Error: invalid format specifier to printf");
                             }
-                            value = next_vararg_int(I16_SIZE);
+                            // shorts are promoted to int when passed
+                            value = BigInt.asIntN(16, next_vararg_int(I32_SIZE));
                             if (c === "u") {
                                 value = signed_to_unsigned_i16(value);
                             }
@@ -96,8 +95,9 @@ export function printf(wasm_memory) {
                             break;
                         case "c":
                             // char
-                            value = next_vararg_int(I8_SIZE);
-                            value = String.fromCharCode(Number(value));
+                            // chars are promoted to int when passed
+                            value = next_vararg_int(I32_SIZE);
+                            value = String.fromCharCode(Number(BigInt.asUintN(8, value)));
                             break;
                         case "s":
                             // string
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 334a895..0759413 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -838,10 +838,30 @@ pub fn convert_expression_to_ir(
             let dest_type = fun_var.get_function_return_type(prog)?;
 
             let mut param_srcs: Vec<Src> = Vec::new();
-            for param in params {
-                let (mut param_instrs, param_var) = convert_expression_to_ir(param, prog, context)?;
+            let named_param_count = match prog.get_fun_type(&fun_id)? {
+                IrType::Function(_, param_types, _) => param_types.len(),
+                _ => return Err(MiddleEndError::UnwrapNonFunctionType),
+            };
+            for (param_index, param) in params.into_iter().enumerate() {
+                let (mut param_instrs, mut param_var) =
+                    convert_expression_to_ir(param, prog, context)?;
                 // todo function parameter passing type conversions
                 instrs.append(&mut param_instrs);
+                // default argument promotions of variadic arguments
+                if param_index >= named_param_count {
+                    if let Src::Var(var) = &param_var {
+                        let var_type = prog.get_var_type(var)?;
+                        let promoted_type = match var_type {
+                            IrType::F32 => IrType::F64,
+                            IrType::I8 | IrType::U8 | IrType::I16 | IrType::U16 => IrType::I32,
+                            _ => var_type.to_owned(),
+                        };
+                        let (mut convert_instrs, converted_var) =
+                            get_type_conversion_instrs(param_var, var_type, promoted_type, prog)?;
+                        instrs.append(&mut convert_instrs);
+                        param_var = converted_var;
+                    }
+                }
                 param_srcs.push(param_var);
             }
             let dest = prog.new_var(ValueType::RValue);
-- 
2.43.0


From 957b9201b4fc6fedc9b988ce66d9724229f22ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:43 +0000
Subject: [PATCH 27/67] fix: store array members inside structs and unions

---
 src/middle_end/ast_to_ir.rs | 20 ++++++++++++++++++++
 src/middle_end/ir_types.rs  | 14 ++++++++++++--
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 0759413..1bef491 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -914,6 +914,16 @@ pub fn convert_expression_to_ir(
                     if this_expr_directly_on_lhs_of_assignment {
                         // store to struct member
                         Ok((instrs, Src::StoreAddressVar(ptr)))
+                    } else if let IrType::ArrayOf(element_type, _) = member_type {
+                        // an array member decays to a pointer to its first element
+                        let dest = prog.new_var(ValueType::RValue);
+                        prog.add_var_type(dest.to_owned(), IrType::PointerTo(element_type))?;
+                        instrs.push(Instruction::SimpleAssignment(
+                            prog.new_instr_id(),
+                            dest.to_owned(),
+                            Src::Var(ptr),
+                        ));
+                        Ok((instrs, Src::Var(dest)))
                     } else {
                         // load from struct member
                         let dest = prog.new_var(ValueType::LValue);
@@ -979,6 +989,16 @@ pub fn convert_expression_to_ir(
                     if this_expr_directly_on_lhs_of_assignment {
                         // store to struct member
                         Ok((instrs, Src::StoreAddressVar(ptr)))
+                    } else if let IrType::ArrayOf(element_type, _) = member_type {
+                        // an array member decays to a pointer to its first element
+                        let dest = prog.new_var(ValueType::RValue);
+                        prog.add_var_type(dest.to_owned(), IrType::PointerTo(element_type))?;
+                        instrs.push(Instruction::SimpleAssignment(
+                            prog.new_instr_id(),
+                            dest.to_owned(),
+                            Src::Var(ptr),
+                        ));
+                        Ok((instrs, Src::Var(dest)))
                     } else {
                         // load from struct member
                         let dest = prog.new_var(ValueType::LValue);
diff --git a/src/middle_end/ir_types.rs b/src/middle_end/ir_types.rs
index 996c9cd..789c4a9 100644
--- a/src/middle_end/ir_types.rs
+++ b/src/middle_end/ir_types.rs
@@ -458,7 +458,12 @@ impl StructType {
         if self.has_member(&member_name) {
             return Err(MiddleEndError::DuplicateStructMember);
         }
-        let byte_size = match member_type.get_byte_size(prog) {
+        // an array member is stored inside the struct, rather than as a pointer
+        let member_size = match member_type.is_array_type() {
+            true => member_type.get_array_byte_size(prog)?,
+            false => member_type.get_byte_size(prog),
+        };
+        let byte_size = match member_size {
             TypeSize::CompileTime(size) => size,
             TypeSize::Runtime(_) => return Err(MiddleEndError::UndefinedStructMemberSize),
         };
@@ -578,7 +583,12 @@ impl UnionType {
         if self.has_member(&member_name) {
             return Err(MiddleEndError::DuplicateUnionMember);
         }
-        let byte_size = match member_type.get_byte_size(prog) {
+        // an array member is stored inside the union, rather than as a pointer
+        let member_size = match member_type.is_array_type() {
+            true => member_type.get_array_byte_size(prog)?,
+            false => member_type.get_byte_size(prog),
+        };
+        let byte_size = match member_size {
             TypeSize::CompileTime(size) => size,
             TypeSize::Runtime(_) => return Err(MiddleEndError::UndefinedUnionMemberSize),
         };
-- 
2.43.0


From 9b4e24c5fa9619267559641e3512b624874268b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:37 +0000
Subject: [PATCH 28/67] fix: complete the conversions between integral types

---
 src/middle_end/type_conversions.rs | 83 +++++++++++++++++++++++-------
 1 file changed, 63 insertions(+), 20 deletions(-)

diff --git a/src/middle_end/type_conversions.rs b/src/middle_end/type_conversions.rs
index d545989..f9e2a37 100644
--- a/src/middle_end/type_conversions.rs
+++ b/src/middle_end/type_conversions.rs
@@ -316,26 +316,18 @@ pub fn get_type_conversion_instrs(
     if src_type == dest_type {
         return Ok((instrs, src));
     }
-    // the value of a constant converted to an integral type is known at compile time
-    if let (Src::Constant(Constant::Int(i)), true) = (&src, dest_type.is_integral_type()) {
-        let value = match dest_type {
-            IrType::I8 => *i as i8 as i128,
-            IrType::U8 => *i as u8 as i128,
-            IrType::I16 => *i as i16 as i128,
-            IrType::U16 => *i as u16 as i128,
-            IrType::I32 => *i as i32 as i128,
-            IrType::U32 => *i as u32 as i128,
-            IrType::I64 => *i as i64 as i128,
-            _ => *i as u64 as i128,
-        };
-        let dest = prog.new_var(src.get_value_type());
-        prog.add_var_type(dest.to_owned(), dest_type)?;
-        instrs.push(Instruction::SimpleAssignment(
-            prog.new_instr_id(),
-            dest.to_owned(),
-            Src::Constant(Constant::Int(value)),
-        ));
-        return Ok((instrs, Src::Var(dest)));
+    // the value of a converted constant is known at compile time
+    if let Src::Constant(c) = &src {
+        if let Some(value) = convert_constant(c, &dest_type) {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), dest_type)?;
+            instrs.push(Instruction::SimpleAssignment(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                Src::Constant(value),
+            ));
+            return Ok((instrs, Src::Var(dest)));
+        }
     }
     match (src_type, dest_type) {
         // char promotions
@@ -783,6 +775,33 @@ pub fn get_type_conversion_instrs(
             ));
             Ok((instrs, Src::Var(dest)))
         }
+        // conversions between integral types that only change how the value's bytes are read
+        (
+            IrType::I32 | IrType::U32,
+            dest_type @ (IrType::I16 | IrType::U16 | IrType::I32 | IrType::U32),
+        )
+        | (IrType::I64 | IrType::U64, dest_type @ (IrType::I64 | IrType::U64)) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), dest_type)?;
+            instrs.push(Instruction::SimpleAssignment(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
+        // conversions that drop the high bytes of a long
+        (
+            src_type @ (IrType::I64 | IrType::U64),
+            dest_type @ (IrType::I16 | IrType::U16 | IrType::U32),
+        ) => {
+            let (mut instrs, int_src) =
+                get_type_conversion_instrs(src, src_type, IrType::I32, prog)?;
+            let (mut convert_instrs, dest) =
+                get_type_conversion_instrs(int_src, IrType::I32, dest_type, prog)?;
+            instrs.append(&mut convert_instrs);
+            Ok((instrs, dest))
+        }
         (s, d) => Err(MiddleEndError::TypeConversionError(
             "Cannot convert type",
             s,
@@ -790,3 +809,27 @@ pub fn get_type_conversion_instrs(
         )),
     }
 }
+
+/// Evaluate the conversion of a constant to an arithmetic type. Returns None if the constant
+/// can't be converted at compile time
+fn convert_constant(constant: &Constant, dest_type: &IrType) -> Option<Constant> {
+    let i = match (constant, dest_type) {
+        (Constant::Int(i), IrType::F32 | IrType::F64) => return Some(Constant::Float(*i as f64)),
+        (Constant::Float(f), IrType::F32 | IrType::F64) => return Some(Constant::Float(*f)),
+        (Constant::Int(i), _) => *i,
+        (Constant::Float(f), _) => *f as i128,
+    };
+    let value = match dest_type {
+        IrType::I8 => i as i8 as i128,
+        IrType::U8 => i as u8 as i128,
+        IrType::I16 => i as i16 as i128,
+        IrType::U16 => i as u16 as i128,
+        IrType::I32 => i as i32 as i128,
+        IrType::U32 => i as u32 as i128,
+        IrType::I64 => i as i64 as i128,
+        IrType::U64 => i as u64 as i128,
+        IrType::PointerTo(_) => i as u32 as i128,
+        _ => return None,
+    };
+    Some(Constant::Int(value))
+}
-- 
2.43.0


From 25fd13b95717cf301a280234227d774dc9760f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:04 +0000
Subject: [PATCH 29/67] fix: convert return values, arguments and case values
 to the declared type

---
 src/middle_end/ast_to_ir.rs        | 58 ++++++++++++++++++++++++------
 src/middle_end/context.rs          |  2 ++
 src/middle_end/type_conversions.rs | 21 +++++++++++
 3 files changed, 71 insertions(+), 10 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 1bef491..d8923af 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -18,7 +18,7 @@ use crate::middle_end::ir_types::{array_to_pointer_type, IrType, TypeSize};
 use crate::middle_end::middle_end_error::MiddleEndError;
 use crate::middle_end::type_conversions::{
     binary_convert, binary_convert_separately, convert_type_for_assignment,
-    get_type_conversion_instrs, unary_convert,
+    convert_scalar_as_if_by_assignment, get_type_conversion_instrs, unary_convert,
 };
 
 pub fn convert_to_ir(ast: AstProgram) -> Result<Program, MiddleEndError> {
@@ -76,8 +76,16 @@ fn convert_statement_to_ir(
                 instrs.push(Instruction::Ret(prog.new_instr_id(), None));
             }
             Some(expr) => {
-                let (mut expr_instrs, expr_var) = convert_expression_to_ir(expr, prog, context)?;
+                let (mut expr_instrs, mut expr_var) =
+                    convert_expression_to_ir(expr, prog, context)?;
                 instrs.append(&mut expr_instrs);
+                // convert to the return type of the function
+                if let Some(return_type) = context.function_return_type.to_owned() {
+                    let (mut convert_instrs, converted_var) =
+                        convert_scalar_as_if_by_assignment(expr_var, return_type, prog)?;
+                    instrs.append(&mut convert_instrs);
+                    expr_var = converted_var;
+                }
                 instrs.push(Instruction::Ret(prog.new_instr_id(), Some(expr_var)));
             }
         },
@@ -258,11 +266,19 @@ fn convert_statement_to_ir(
             let (mut expr_instrs, switch_src) =
                 convert_expression_to_ir(switch_expr, prog, context)?;
             instrs.append(&mut expr_instrs);
+            let switch_src = match switch_src {
+                Src::Constant(_) => switch_src,
+                _ => {
+                    let (mut unary_convert_instrs, switch_src) = unary_convert(switch_src, prog)?;
+                    instrs.append(&mut unary_convert_instrs);
+                    switch_src
+                }
+            };
             let switch_var = match switch_src {
                 Src::Var(var) => var,
                 Src::Constant(c) => {
                     let temp = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(temp.to_owned(), c.get_type(None))?;
+                    prog.add_var_type(temp.to_owned(), c.get_type_minimum_i32())?;
                     instrs.push(Instruction::SimpleAssignment(
                         prog.new_instr_id(),
                         temp.to_owned(),
@@ -314,14 +330,23 @@ fn convert_statement_to_ir(
                     if !context.is_in_switch_context() {
                         return Err(MiddleEndError::CaseOutsideSwitchContext);
                     }
-                    let (mut condition_instrs, expr_var) =
+                    let (mut condition_instrs, mut expr_var) =
                         convert_expression_to_ir(expr, prog, context)?;
+                    // convert to the type of the switch expression
+                    let switch_var = context.get_switch_variable().unwrap();
+                    let (mut convert_instrs, converted_var) = convert_scalar_as_if_by_assignment(
+                        expr_var,
+                        prog.get_var_type(&switch_var)?,
+                        prog,
+                    )?;
+                    condition_instrs.append(&mut convert_instrs);
+                    expr_var = converted_var;
                     let case_body_label = prog.new_label();
                     // check if case condition matches the switch expression
                     // if so, jump to the corresponding block
                     condition_instrs.push(Instruction::BrIfEq(
                         prog.new_instr_id(),
-                        Src::Var(context.get_switch_variable().unwrap()),
+                        Src::Var(switch_var),
                         expr_var,
                         case_body_label.to_owned(),
                     ));
@@ -670,7 +695,12 @@ fn convert_statement_to_ir(
             let fun_id = prog.new_fun_body(name.to_owned(), fun_declaration)?;
             context.add_function_declaration(name.to_owned(), fun_id)?;
             // function body instructions
+            context.function_return_type = match &type_info {
+                IrType::Function(return_type, _, _) => Some(*return_type.to_owned()),
+                _ => None,
+            };
             let instrs = convert_statement_to_ir(*body, prog, context)?;
+            context.function_return_type = None;
             // allocate variables of constant size once per call, at the start of the function,
             // so that reaching a declaration again (eg. in a loop) doesn't allocate more stack
             let (mut instrs, mut body_instrs): (Vec<_>, Vec<_>) =
@@ -838,17 +868,25 @@ pub fn convert_expression_to_ir(
             let dest_type = fun_var.get_function_return_type(prog)?;
 
             let mut param_srcs: Vec<Src> = Vec::new();
-            let named_param_count = match prog.get_fun_type(&fun_id)? {
-                IrType::Function(_, param_types, _) => param_types.len(),
+            let param_types = match prog.get_fun_type(&fun_id)? {
+                IrType::Function(_, param_types, _) => param_types,
                 _ => return Err(MiddleEndError::UnwrapNonFunctionType),
             };
             for (param_index, param) in params.into_iter().enumerate() {
                 let (mut param_instrs, mut param_var) =
                     convert_expression_to_ir(param, prog, context)?;
-                // todo function parameter passing type conversions
                 instrs.append(&mut param_instrs);
-                // default argument promotions of variadic arguments
-                if param_index >= named_param_count {
+                if let Some(param_type) = param_types.get(param_index) {
+                    // convert to the type of the parameter
+                    let (mut convert_instrs, converted_var) = convert_scalar_as_if_by_assignment(
+                        param_var,
+                        param_type.to_owned(),
+                        prog,
+                    )?;
+                    instrs.append(&mut convert_instrs);
+                    param_var = converted_var;
+                } else {
+                    // default argument promotions of variadic arguments
                     if let Src::Var(var) = &param_var {
                         let var_type = prog.get_var_type(var)?;
                         let promoted_type = match var_type {
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 0980eef..c1497b9 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -14,6 +14,7 @@ pub struct Context {
     pub in_function_name_expr: bool,
     function_names: HashMap<String, FunId>,
     pub directly_on_lhs_of_assignment: bool,
+    pub function_return_type: Option<IrType>,
 }
 
 pub enum IdentifierResolveResult {
@@ -29,6 +30,7 @@ impl Context {
             in_function_name_expr: false,
             function_names: HashMap::new(),
             directly_on_lhs_of_assignment: false,
+            function_return_type: None,
         }
     }
 
diff --git a/src/middle_end/type_conversions.rs b/src/middle_end/type_conversions.rs
index f9e2a37..42a7a68 100644
--- a/src/middle_end/type_conversions.rs
+++ b/src/middle_end/type_conversions.rs
@@ -305,6 +305,27 @@ pub fn convert_type_for_assignment(
     Ok((convert_instrs, converted_var))
 }
 
+/// Convert an arithmetic value or a constant to the type of the scalar object it initialises.
+/// Values of any other type are left unchanged.
+pub fn convert_scalar_as_if_by_assignment(
+    src: Src,
+    dest_type: IrType,
+    prog: &mut Program,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    let needs_conversion = match &src {
+        Src::Constant(_) => dest_type.is_scalar_type(),
+        Src::Var(var) => {
+            prog.get_var_type(var)?.is_arithmetic_type() && dest_type.is_arithmetic_type()
+        }
+        _ => false,
+    };
+    if !needs_conversion {
+        return Ok((Vec::new(), src));
+    }
+    let src_type = src.get_type(&prog.program_metadata)?;
+    get_type_conversion_instrs(src, src_type, dest_type, prog)
+}
+
 pub fn get_type_conversion_instrs(
     src: Src,
     src_type: IrType,
-- 
2.43.0


From 7db599375c5a47a946eec0c36f71ed469867da70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:51 +0000
Subject: [PATCH 30/67] fix: an if with an empty branch continues at the next
 instr in the flowgraph

---
 src/back_end/dataflow_analysis/flowgraph.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/back_end/dataflow_analysis/flowgraph.rs b/src/back_end/dataflow_analysis/flowgraph.rs
index 9fa02fd..7c63ee0 100644
--- a/src/back_end/dataflow_analysis/flowgraph.rs
+++ b/src/back_end/dataflow_analysis/flowgraph.rs
@@ -323,16 +323,23 @@ fn add_instrs_to_flowgraph(
                     flowgraph.add_successor(prev_instr_id.to_owned(), instr_id.to_owned());
                 }
 
-                let (instrs1_entry, instrs1_exits, instrs1_jump_exits) =
+                let (instrs1_entry, mut instrs1_exits, instrs1_jump_exits) =
                     add_instrs_to_flowgraph(instrs1, flowgraph);
-                let (instrs2_entry, instrs2_exits, instrs2_jump_exits) =
+                let (instrs2_entry, mut instrs2_exits, instrs2_jump_exits) =
                     add_instrs_to_flowgraph(instrs2, flowgraph);
 
-                if let Some(entry) = instrs1_entry {
-                    flowgraph.add_successor(instr_id.to_owned(), entry);
+                // if a branch is empty, control goes straight to the next instr
+                match instrs1_entry {
+                    Some(entry) => flowgraph.add_successor(instr_id.to_owned(), entry),
+                    None => {
+                        instrs1_exits.insert(instr_id.to_owned());
+                    }
                 }
-                if let Some(entry) = instrs2_entry {
-                    flowgraph.add_successor(instr_id.to_owned(), entry);
+                match instrs2_entry {
+                    Some(entry) => flowgraph.add_successor(instr_id.to_owned(), entry),
+                    None => {
+                        instrs2_exits.insert(instr_id.to_owned());
+                    }
                 }
 
                 prev_instrs.clear();
-- 
2.43.0


From cfdb469f3f02400004894845f43fe30d24ff646d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:44 +0000
Subject: [PATCH 31/67] fix: store each char of a string literal as one byte

---
 src/back_end/initialise_memory.rs   |  4 ++--
 src/front_end/interpret_string.rs   | 16 +++++++++-------
 src/middle_end/ast_to_ir.rs         |  2 +-
 src/middle_end/compile_time_eval.rs |  2 +-
 4 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/back_end/initialise_memory.rs b/src/back_end/initialise_memory.rs
index 68f0f96..7b95f39 100644
--- a/src/back_end/initialise_memory.rs
+++ b/src/back_end/initialise_memory.rs
@@ -35,8 +35,8 @@ pub fn initialise_memory(
         module_context
             .string_literal_id_to_ptr_map
             .insert(string_literal_id.to_owned(), ptr_to_string as u32);
-        // insert the string
-        data.append(&mut string.as_bytes().to_vec());
+        // insert the string - each char is one byte
+        data.extend(string.chars().map(|c| c as u8));
         // null terminate the string
         data.push(0x00);
     }
diff --git a/src/front_end/interpret_string.rs b/src/front_end/interpret_string.rs
index 0b846ef..9e95dc3 100644
--- a/src/front_end/interpret_string.rs
+++ b/src/front_end/interpret_string.rs
@@ -4,8 +4,10 @@ use std::{iter::Peekable, str::Chars};
 #[path = "interpret_string_tests.rs"]
 mod interpret_string_tests;
 
+/// Each char of the resulting string is one byte of the C string
 pub fn interpret_string(s: &str) -> Result<String, Error> {
-    InterpretString::new(s).collect()
+    let source_bytes: String = s.bytes().map(char::from).collect();
+    InterpretString::new(&source_bytes).collect()
 }
 
 struct InterpretString<'a> {
@@ -55,9 +57,9 @@ impl Iterator for InterpretString<'_> {
                                 // convert the hex code to an int, and then to
                                 // the corresponding char
                                 let hex_code = u32::from_str_radix(&buffer, 16).unwrap();
-                                match char::from_u32(hex_code) {
-                                    Some(c) => Ok(c),
-                                    None => Err(Error::InvalidCharCode(buffer)),
+                                match u8::try_from(hex_code) {
+                                    Ok(c) => Ok(char::from(c)),
+                                    Err(_) => Err(Error::InvalidCharCode(buffer)),
                                 }
                             }
                             Some(c) => Err(Error::InvalidEscapeChar(*c)),
@@ -87,9 +89,9 @@ impl Iterator for InterpretString<'_> {
                         // convert the octal code to an int, and then to the
                         // corresponding char
                         let oct_code = u32::from_str_radix(&buffer, 8).unwrap();
-                        match char::from_u32(oct_code) {
-                            Some(c) => Ok(c),
-                            None => Err(Error::InvalidCharCode(buffer)),
+                        match u8::try_from(oct_code) {
+                            Ok(c) => Ok(char::from(c)),
+                            Err(_) => Err(Error::InvalidCharCode(buffer)),
                         }
                     }
                     Some(c) => Err(Error::InvalidEscapeChar(c)),
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index d8923af..a3b9a25 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -747,7 +747,7 @@ pub fn convert_expression_to_ir(
         Expression::Constant(c) => match c {
             ast::Constant::Int(i) => Ok((instrs, Src::Constant(Constant::Int(i as i128)))),
             ast::Constant::Float(f) => Ok((instrs, Src::Constant(Constant::Float(f)))),
-            ast::Constant::Char(ch) => Ok((instrs, Src::Constant(Constant::Int(ch as i128)))),
+            ast::Constant::Char(ch) => Ok((instrs, Src::Constant(Constant::Int(ch as i8 as i128)))),
         },
         Expression::StringLiteral(s) => {
             let string_id = prog.new_string_literal(s);
diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index 41dcc1f..6f079d7 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -32,7 +32,7 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
         Expression::Constant(c) => match c {
             AstConstant::Int(i) => Ok(ConstantExpressionType::Int(i as i128)),
             AstConstant::Float(f) => Ok(ConstantExpressionType::Float(f)),
-            AstConstant::Char(c) => Ok(ConstantExpressionType::Int(c as i128)),
+            AstConstant::Char(c) => Ok(ConstantExpressionType::Int(c as i8 as i128)),
         },
         Expression::StringLiteral(_) => Err(MiddleEndError::InvalidConstantExpression),
         Expression::Index(_, _) => Err(MiddleEndError::CantEvaluateAtCompileTime),
-- 
2.43.0


From 3e2617925fd001d351691e9858ce9729720227a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:27 +0000
Subject: [PATCH 32/67] fix: isspace is true for vertical tab and form feed

---
 headers/ctype.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/headers/ctype.h b/headers/ctype.h
index 4e5d50e..d4376ed 100644
--- a/headers/ctype.h
+++ b/headers/ctype.h
@@ -56,7 +56,7 @@ int isupper(char c) {
 }
 
 int isspace(char c) {
-    return c == '\t' || c == '\r' || c == '\n' || c == ' ';
+    return (c >= '\t' && c <= '\r') || c == ' ';
 }
 
 char tolower(char c) {
-- 
2.43.0


From 4a6465e558837af6291f1b656a658983bb3332a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:37 +0000
Subject: [PATCH 33/67] fix: look for address-taken vars again after dead
 instrs are removed

---
 .../dataflow_analysis/dead_code_analysis.rs     | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/back_end/dataflow_analysis/dead_code_analysis.rs b/src/back_end/dataflow_analysis/dead_code_analysis.rs
index f8f5421..62ead5f 100644
--- a/src/back_end/dataflow_analysis/dead_code_analysis.rs
+++ b/src/back_end/dataflow_analysis/dead_code_analysis.rs
@@ -17,18 +17,19 @@ pub fn remove_dead_vars(
 ) -> Flowgraph {
     let mut flowgraph = generate_flowgraph(block);
 
-    // a var whose address is taken can be read through a pointer at any point
-    let mut address_taken_vars: HashSet<VarId> = HashSet::new();
-    for instr in flowgraph.instrs.values() {
-        if let Instruction::AddressOf(_, _, src) = instr {
-            address_taken_vars.insert(src.unwrap_var().unwrap());
-        }
-    }
-
     let mut changes = true;
     while changes {
         changes = false;
 
+        // a var whose address is taken can be read through a pointer at any point. The address
+        // may itself turn out to be unused, so look again after removing instrs
+        let mut address_taken_vars: HashSet<VarId> = HashSet::new();
+        for instr in flowgraph.instrs.values() {
+            if let Instruction::AddressOf(_, _, src) = instr {
+                address_taken_vars.insert(src.unwrap_var().unwrap());
+            }
+        }
+
         let live_vars = live_variable_analysis(&flowgraph);
 
         let mut remove_instrs = Vec::new();
-- 
2.43.0


From 8a7dcdd6f157a5e7b91783120c57506bac2adb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:37 +0000
Subject: [PATCH 34/67] fix: read the preprocessor's output while writing its
 input

---
 src/preprocessor.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/preprocessor.rs b/src/preprocessor.rs
index 19e73d3..70876a1 100644
--- a/src/preprocessor.rs
+++ b/src/preprocessor.rs
@@ -3,7 +3,7 @@ use std::io;
 use std::io::{BufRead, ErrorKind, Write};
 use std::path::{Path, PathBuf};
 use std::process::{Command, Stdio};
-use std::{fmt, fs};
+use std::{fmt, fs, thread};
 
 use lazy_static::lazy_static;
 use log::info;
@@ -160,17 +160,22 @@ fn run_c_preprocessor(source: String) -> Result<String, Box<dyn Error>> {
         .arg("-P") // don't include line marker information
         .spawn()?;
 
-    // write the contents of source to stdin for cpp
-    cpp_child
+    // write the contents of source to stdin for cpp. This is on a separate thread, so that
+    // we're reading the output at the same time: otherwise neither process could make progress
+    // if cpp fills up an output pipe before it has read all of its input
+    let mut cpp_stdin = cpp_child
         .stdin
-        .as_mut()
-        .ok_or("Child process stdin hasn't been captured")?
-        .write_all(source.as_bytes())?;
+        .take()
+        .ok_or("Child process stdin hasn't been captured")?;
+    let stdin_writer = thread::spawn(move || cpp_stdin.write_all(source.as_bytes()));
 
     // capture the output from cpp
     let output = cpp_child.wait_with_output()?;
 
     if output.status.success() {
+        stdin_writer
+            .join()
+            .map_err(|_| "Writing to child process stdin panicked")??;
         Ok(String::from_utf8(output.stdout)?)
     } else {
         // terminate the program if the preprocessor can't parse the file
-- 
2.43.0


From 417f1d887bd54b99b0b74170f50eb65cbd0f3014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:48 +0000
Subject: [PATCH 35/67] fix: reject arrays that are larger than the address
 space

---
 src/middle_end/ir_types.rs         | 6 +++++-
 src/middle_end/middle_end_error.rs | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ir_types.rs b/src/middle_end/ir_types.rs
index 789c4a9..e0fd1ff 100644
--- a/src/middle_end/ir_types.rs
+++ b/src/middle_end/ir_types.rs
@@ -111,7 +111,11 @@ impl IrType {
         match self {
             IrType::ArrayOf(inner_type, count) => match count {
                 Some(TypeSize::CompileTime(count)) => match inner_type.get_byte_size(prog) {
-                    TypeSize::CompileTime(t_size) => Ok(TypeSize::CompileTime(t_size * count)),
+                    TypeSize::CompileTime(t_size) => match t_size.checked_mul(*count) {
+                        // addresses are 32 bits, so no object can be larger than this
+                        Some(size) if size <= i32::MAX as u64 => Ok(TypeSize::CompileTime(size)),
+                        _ => Err(MiddleEndError::ArrayTooLarge),
+                    },
                     TypeSize::Runtime(t_size_expr) => Ok(TypeSize::Runtime(Expression::BinaryOp(
                         BinaryOperator::Mult,
                         Box::new(t_size_expr),
diff --git a/src/middle_end/middle_end_error.rs b/src/middle_end/middle_end_error.rs
index e63c39b..342034b 100644
--- a/src/middle_end/middle_end_error.rs
+++ b/src/middle_end/middle_end_error.rs
@@ -46,6 +46,7 @@ pub enum MiddleEndError {
     AttemptToModifyNonLValue,
     UndefinedArraySize,
     ArrayMemberSizeNotKnownAtCompileTime,
+    ArrayTooLarge,
     UndefinedStructMemberSize,
     UndefinedUnionMemberSize,
     CantEvaluateAtCompileTime,
@@ -117,6 +118,9 @@ impl fmt::Display for MiddleEndError {
             MiddleEndError::DuplicateTypeDeclaration(t) => {
                 write!(f, "Duplicate typedef declaration: \"{t}\"")
             }
+            MiddleEndError::ArrayTooLarge => {
+                write!(f, "Array is too large")
+            }
             MiddleEndError::InvalidTypedefDeclaration => {
                 write!(f, "Invalid typedef declaration")
             }
-- 
2.43.0


From 1f5fdd5b1bb31a2d8058a9a78d60ca3a62a315ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:32 +0000
Subject: [PATCH 36/67] fix: stop a header that includes itself from being
 included for ever

---
 src/preprocessor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/preprocessor.rs b/src/preprocessor.rs
index 70876a1..e299703 100644
--- a/src/preprocessor.rs
+++ b/src/preprocessor.rs
@@ -118,6 +118,8 @@ fn include_headers(
                 }
             };
         let (header_source, mut new_includes) = header;
+        // a header that includes itself is already being included
+        new_includes.retain(|new_include| *new_include != include_name);
         info!("New includes: {:?}", new_includes);
         includes.append(&mut new_includes);
         source.insert(0, '\n');
-- 
2.43.0


From 0cb76fccfebc728d18a563abb8cd96184840ff04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 37/67] fix: increment and decrement operands of every scalar
 type by one

---
 src/middle_end/ast_to_ir.rs | 431 ++++++++++--------------------------
 1 file changed, 116 insertions(+), 315 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index a3b9a25..bee3592 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1,4 +1,4 @@
-use log::{debug, trace};
+use log::trace;
 
 use crate::front_end::ast;
 use crate::front_end::ast::{
@@ -1074,326 +1074,16 @@ pub fn convert_expression_to_ir(
             }
         }
         Expression::PostfixIncrement(expr) => {
-            context.directly_on_lhs_of_assignment = true;
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
-            context.directly_on_lhs_of_assignment = false;
-            instrs.append(&mut expr_instrs);
-            let dest = prog.new_var(ValueType::RValue);
-            // propagate the type of dest: same as src
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            // check type is valid to be incremented
-            if !expr_var_type.is_scalar_type() {
-                return Err(MiddleEndError::InvalidOperation(
-                    "Incrementing a non-scalar type",
-                ));
-            }
-            match expr_var {
-                Src::Var(var) => {
-                    // the returned value is the variable before incrementing
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    instrs.push(Instruction::Add(
-                        prog.new_instr_id(),
-                        var.to_owned(),
-                        Src::Var(var),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-                }
-                Src::StoreAddressVar(var) => {
-                    // load value to increment
-                    let src_to_increment = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        src_to_increment.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::LoadFromAddress(
-                        prog.new_instr_id(),
-                        src_to_increment.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    // the returned value is the variable before incrementing
-                    prog.add_var_type(dest.to_owned(), expr_var_type.dereference_pointer_type()?)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(src_to_increment.to_owned()),
-                    ));
-
-                    // increment value
-                    let result = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        result.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::Add(
-                        prog.new_instr_id(),
-                        result.to_owned(),
-                        Src::Var(src_to_increment),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-
-                    // store value back
-                    instrs.push(Instruction::StoreToAddress(
-                        prog.new_instr_id(),
-                        var,
-                        Src::Var(result),
-                    ));
-                }
-                _ => return Err(MiddleEndError::InvalidLValue),
-            }
-            Ok((instrs, Src::Var(dest)))
+            convert_increment_or_decrement_to_ir(*expr, true, false, prog, context)
         }
         Expression::PostfixDecrement(expr) => {
-            context.directly_on_lhs_of_assignment = true;
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
-            context.directly_on_lhs_of_assignment = false;
-            instrs.append(&mut expr_instrs);
-            let dest = prog.new_var(ValueType::RValue);
-            // propagate the type of dest: same as src
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            // check type is valid to be incremented
-            if !expr_var_type.is_scalar_type() {
-                return Err(MiddleEndError::InvalidOperation(
-                    "Decrementing a non-scalar type",
-                ));
-            }
-            match expr_var {
-                Src::Var(var) => {
-                    // the returned value is the variable before decrementing
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    instrs.push(Instruction::Sub(
-                        prog.new_instr_id(),
-                        var.to_owned(),
-                        Src::Var(var),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-                }
-                Src::StoreAddressVar(var) => {
-                    // load value to decrement
-                    let src_to_decrement = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        src_to_decrement.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::LoadFromAddress(
-                        prog.new_instr_id(),
-                        src_to_decrement.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    // the returned value is the variable before decrementing
-                    prog.add_var_type(dest.to_owned(), expr_var_type.dereference_pointer_type()?)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(src_to_decrement.to_owned()),
-                    ));
-
-                    // increment value
-                    let result = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        result.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::Sub(
-                        prog.new_instr_id(),
-                        result.to_owned(),
-                        Src::Var(src_to_decrement),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-
-                    // store value back
-                    instrs.push(Instruction::StoreToAddress(
-                        prog.new_instr_id(),
-                        var,
-                        Src::Var(result),
-                    ));
-                }
-                _ => return Err(MiddleEndError::InvalidLValue),
-            }
-            Ok((instrs, Src::Var(dest)))
+            convert_increment_or_decrement_to_ir(*expr, false, false, prog, context)
         }
         Expression::PrefixIncrement(expr) => {
-            context.directly_on_lhs_of_assignment = true;
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
-            context.directly_on_lhs_of_assignment = false;
-            instrs.append(&mut expr_instrs);
-            // make sure the result is an rvalue
-            let dest = prog.new_var(ValueType::RValue);
-            // expr_var is the variable returned, after incrementing
-            // check type is valid to be incremented
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            if !expr_var_type.is_scalar_type() {
-                return Err(MiddleEndError::InvalidOperation(
-                    "Incrementing a non-scalar type",
-                ));
-            }
-            match expr_var {
-                Src::Var(var) => {
-                    instrs.push(Instruction::Add(
-                        prog.new_instr_id(),
-                        var.to_owned(),
-                        Src::Var(var.to_owned()),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(var),
-                    ));
-                }
-                Src::StoreAddressVar(var) => {
-                    // load value to increment
-                    let src_to_increment = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        src_to_increment.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::LoadFromAddress(
-                        prog.new_instr_id(),
-                        src_to_increment.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    // increment value
-                    let result = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        result.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::Add(
-                        prog.new_instr_id(),
-                        result.to_owned(),
-                        Src::Var(src_to_increment),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-
-                    debug!(
-                        "VAR TYPE: {}, RESULT TYPE: {}",
-                        prog.get_var_type(&var)?,
-                        prog.get_var_type(&result)?
-                    );
-
-                    // store value back
-                    instrs.push(Instruction::StoreToAddress(
-                        prog.new_instr_id(),
-                        var,
-                        Src::Var(result.to_owned()),
-                    ));
-
-                    // store result to dest
-                    prog.add_var_type(dest.to_owned(), expr_var_type.dereference_pointer_type()?)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(result),
-                    ));
-                }
-                _ => return Err(MiddleEndError::InvalidLValue),
-            }
-            Ok((instrs, Src::Var(dest)))
+            convert_increment_or_decrement_to_ir(*expr, true, true, prog, context)
         }
         Expression::PrefixDecrement(expr) => {
-            context.directly_on_lhs_of_assignment = true;
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
-            context.directly_on_lhs_of_assignment = false;
-            instrs.append(&mut expr_instrs);
-            // make sure the result is an rvalue
-            let dest = prog.new_var(ValueType::RValue);
-            // expr_var is the variable returned, after decrementing
-            // check type is valid to be incremented
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            if !expr_var_type.is_scalar_type() {
-                return Err(MiddleEndError::InvalidOperation(
-                    "Incrementing a non-scalar type",
-                ));
-            }
-            match expr_var {
-                Src::Var(var) => {
-                    instrs.push(Instruction::Sub(
-                        prog.new_instr_id(),
-                        var.to_owned(),
-                        Src::Var(var.to_owned()),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(var),
-                    ));
-                }
-                Src::StoreAddressVar(var) => {
-                    // load value to increment
-                    let src_to_decrement = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        src_to_decrement.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::LoadFromAddress(
-                        prog.new_instr_id(),
-                        src_to_decrement.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    // increment value
-                    let result = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        result.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::Sub(
-                        prog.new_instr_id(),
-                        result.to_owned(),
-                        Src::Var(src_to_decrement),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-
-                    debug!(
-                        "VAR TYPE: {}, RESULT TYPE: {}",
-                        prog.get_var_type(&var)?,
-                        prog.get_var_type(&result)?
-                    );
-
-                    // store value back
-                    instrs.push(Instruction::StoreToAddress(
-                        prog.new_instr_id(),
-                        var,
-                        Src::Var(result.to_owned()),
-                    ));
-
-                    // store result to dest
-                    prog.add_var_type(dest.to_owned(), expr_var_type.dereference_pointer_type()?)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(result),
-                    ));
-                }
-                _ => return Err(MiddleEndError::InvalidLValue),
-            }
-            Ok((instrs, Src::Var(dest)))
+            convert_increment_or_decrement_to_ir(*expr, false, true, prog, context)
         }
         Expression::UnaryOp(UnaryOperator::AddressOf, expr) => {
             let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
@@ -2249,3 +1939,114 @@ pub fn convert_expression_to_ir(
         }
     }
 }
+
+/// ++ and --: the operand is changed as if by `operand = operand + 1`, so the arithmetic
+/// is done in the promoted type of the operand and the result is converted back to its type
+fn convert_increment_or_decrement_to_ir(
+    expr: Expression,
+    is_increment: bool,
+    is_prefix: bool,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    let mut instrs: Vec<Instruction> = Vec::new();
+    context.directly_on_lhs_of_assignment = true;
+    let (mut expr_instrs, expr_var) = convert_expression_to_ir(expr, prog, context)?;
+    context.directly_on_lhs_of_assignment = false;
+    instrs.append(&mut expr_instrs);
+
+    // the value before the change
+    let old_value = prog.new_var(ValueType::RValue);
+    let value_type = match &expr_var {
+        Src::Var(var) => {
+            let value_type = prog.get_var_type(var)?;
+            prog.add_var_type(old_value.to_owned(), value_type.to_owned())?;
+            instrs.push(Instruction::SimpleAssignment(
+                prog.new_instr_id(),
+                old_value.to_owned(),
+                Src::Var(var.to_owned()),
+            ));
+            value_type
+        }
+        Src::StoreAddressVar(var) => {
+            let value_type = prog.get_var_type(var)?.dereference_pointer_type()?;
+            prog.add_var_type(old_value.to_owned(), value_type.to_owned())?;
+            instrs.push(Instruction::LoadFromAddress(
+                prog.new_instr_id(),
+                old_value.to_owned(),
+                Src::Var(var.to_owned()),
+            ));
+            value_type
+        }
+        _ => return Err(MiddleEndError::InvalidLValue),
+    };
+    // check type is valid to be changed
+    if !value_type.is_scalar_type() {
+        return Err(MiddleEndError::InvalidOperation(
+            "Incrementing or decrementing a non-scalar type",
+        ));
+    }
+
+    let (mut unary_convert_instrs, promoted_value) =
+        unary_convert(Src::Var(old_value.to_owned()), prog)?;
+    instrs.append(&mut unary_convert_instrs);
+    let promoted_type = promoted_value.get_type(&prog.program_metadata)?;
+    let amount = match &promoted_type {
+        IrType::F32 | IrType::F64 => Src::Constant(Constant::Float(1.)),
+        IrType::PointerTo(_) => {
+            // pointers change in multiples of the byte size of the type they point to
+            match promoted_type.get_pointer_object_byte_size(&prog.program_metadata)? {
+                TypeSize::CompileTime(size) => Src::Constant(Constant::Int(size as i128)),
+                TypeSize::Runtime(size_expr) => {
+                    let (mut size_instrs, size_var) =
+                        convert_expression_to_ir(size_expr, prog, context)?;
+                    instrs.append(&mut size_instrs);
+                    size_var
+                }
+            }
+        }
+        _ => Src::Constant(Constant::Int(1)),
+    };
+    let result = prog.new_var(ValueType::RValue);
+    prog.add_var_type(result.to_owned(), promoted_type.to_owned())?;
+    instrs.push(if is_increment {
+        Instruction::Add(
+            prog.new_instr_id(),
+            result.to_owned(),
+            promoted_value,
+            amount,
+        )
+    } else {
+        Instruction::Sub(
+            prog.new_instr_id(),
+            result.to_owned(),
+            promoted_value,
+            amount,
+        )
+    });
+    let mut new_value = Src::Var(result);
+    if promoted_type != value_type {
+        let (mut convert_instrs, converted_value) =
+            get_type_conversion_instrs(new_value, promoted_type, value_type, prog)?;
+        instrs.append(&mut convert_instrs);
+        new_value = converted_value;
+    }
+
+    match expr_var {
+        Src::StoreAddressVar(var) => instrs.push(Instruction::StoreToAddress(
+            prog.new_instr_id(),
+            var,
+            new_value.to_owned(),
+        )),
+        expr_var => instrs.push(Instruction::SimpleAssignment(
+            prog.new_instr_id(),
+            expr_var.unwrap_var()?,
+            new_value.to_owned(),
+        )),
+    }
+    if is_prefix {
+        Ok((instrs, new_value))
+    } else {
+        Ok((instrs, Src::Var(old_value)))
+    }
+}
-- 
2.43.0


From a34c8a82a4b40c6062afcb04679c6acde973cafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 38/67] fix: take the address of array elements and struct
 members, not of a copy

---
 src/middle_end/ast_to_ir.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index bee3592..3901c42 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1086,10 +1086,22 @@ pub fn convert_expression_to_ir(
             convert_increment_or_decrement_to_ir(*expr, false, true, prog, context)
         }
         Expression::UnaryOp(UnaryOperator::AddressOf, expr) => {
+            // the address of the object itself is needed, not of a copy of its value
+            context.directly_on_lhs_of_assignment = true;
             let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
+            context.directly_on_lhs_of_assignment = false;
             instrs.append(&mut expr_instrs);
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
             let dest = prog.new_var(ValueType::RValue);
+            if let Src::StoreAddressVar(ptr) = expr_var {
+                prog.add_var_type(dest.to_owned(), expr_var_type)?;
+                instrs.push(Instruction::SimpleAssignment(
+                    prog.new_instr_id(),
+                    dest.to_owned(),
+                    Src::Var(ptr),
+                ));
+                return Ok((instrs, Src::Var(dest)));
+            }
             instrs.push(Instruction::AddressOf(
                 prog.new_instr_id(),
                 dest.to_owned(),
-- 
2.43.0


From 8c6c90ada202aab892ee7140a1fab0a4a95446a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:45 +0000
Subject: [PATCH 39/67] fix: the value of an assignment through a pointer is
 the assigned value

---
 src/middle_end/ast_to_ir.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 3901c42..82c801e 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1918,9 +1918,11 @@ pub fn convert_expression_to_ir(
             if is_store_to_address {
                 instrs.push(Instruction::StoreToAddress(
                     prog.new_instr_id(),
-                    dest.to_owned(),
-                    src_var,
+                    dest,
+                    src_var.to_owned(),
                 ));
+                // the result is the stored value, not the address it's stored at
+                return Ok((instrs, src_var));
             } else {
                 instrs.push(Instruction::SimpleAssignment(
                     prog.new_instr_id(),
-- 
2.43.0


From 505ae74537e02a29fd912ce07abafdd89e06e607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:14 +0000
Subject: [PATCH 40/67] fix: the type of a shift is the type of its left
 operand

---
 src/middle_end/ast_to_ir.rs        | 20 +++++++++++---------
 src/middle_end/type_conversions.rs | 26 ++++++++++++++++++++++++++
 2 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 82c801e..426ec69 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -18,7 +18,7 @@ use crate::middle_end::ir_types::{array_to_pointer_type, IrType, TypeSize};
 use crate::middle_end::middle_end_error::MiddleEndError;
 use crate::middle_end::type_conversions::{
     binary_convert, binary_convert_separately, convert_type_for_assignment,
-    convert_scalar_as_if_by_assignment, get_type_conversion_instrs, unary_convert,
+    convert_scalar_as_if_by_assignment, convert_shift_count, get_type_conversion_instrs, unary_convert,
 };
 
 pub fn convert_to_ir(ast: AstProgram) -> Result<Program, MiddleEndError> {
@@ -1575,13 +1575,14 @@ pub fn convert_expression_to_ir(
                     ));
                 }
                 BinaryOperator::LeftShift => {
-                    let (mut convert_instrs, left_var, right_var) =
-                        binary_convert(left_var, right_var, prog)?;
+                    right_var_type.require_integral_type()?;
+                    let (mut convert_instrs, left_var) = unary_convert(left_var, prog)?;
                     instrs.append(&mut convert_instrs);
                     let left_var_type = left_var.get_type(&prog.program_metadata)?;
-                    let right_var_type = right_var.get_type(&prog.program_metadata)?;
                     left_var_type.require_integral_type()?;
-                    right_var_type.require_integral_type()?;
+                    let (mut convert_instrs, right_var) =
+                        convert_shift_count(right_var, &left_var_type, prog)?;
+                    instrs.append(&mut convert_instrs);
                     prog.add_var_type(dest.to_owned(), left_var_type)?;
                     instrs.push(Instruction::LeftShift(
                         prog.new_instr_id(),
@@ -1591,13 +1592,14 @@ pub fn convert_expression_to_ir(
                     ));
                 }
                 BinaryOperator::RightShift => {
-                    let (mut convert_instrs, left_var, right_var) =
-                        binary_convert(left_var, right_var, prog)?;
+                    right_var_type.require_integral_type()?;
+                    let (mut convert_instrs, left_var) = unary_convert(left_var, prog)?;
                     instrs.append(&mut convert_instrs);
                     let left_var_type = left_var.get_type(&prog.program_metadata)?;
-                    let right_var_type = right_var.get_type(&prog.program_metadata)?;
                     left_var_type.require_integral_type()?;
-                    right_var_type.require_integral_type()?;
+                    let (mut convert_instrs, right_var) =
+                        convert_shift_count(right_var, &left_var_type, prog)?;
+                    instrs.append(&mut convert_instrs);
                     prog.add_var_type(dest.to_owned(), left_var_type)?;
                     instrs.push(Instruction::RightShift(
                         prog.new_instr_id(),
diff --git a/src/middle_end/type_conversions.rs b/src/middle_end/type_conversions.rs
index 42a7a68..eb77577 100644
--- a/src/middle_end/type_conversions.rs
+++ b/src/middle_end/type_conversions.rs
@@ -326,6 +326,32 @@ pub fn convert_scalar_as_if_by_assignment(
     get_type_conversion_instrs(src, src_type, dest_type, prog)
 }
 
+/// Convert the right operand of a shift to the width of the promoted left operand. The type of
+/// the result is the type of the left operand, so that one isn't converted.
+pub fn convert_shift_count(
+    shift_count: Src,
+    left_type: &IrType,
+    prog: &mut Program,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    let (mut instrs, shift_count) = unary_convert(shift_count, prog)?;
+    let count_type = shift_count.get_type(&prog.program_metadata)?;
+    let width = |t: &IrType| match t {
+        IrType::I64 | IrType::U64 => 64,
+        _ => 32,
+    };
+    if width(&count_type) == width(left_type) {
+        return Ok((instrs, shift_count));
+    }
+    let converted_type = match left_type {
+        IrType::I64 | IrType::U64 => left_type.to_owned(),
+        _ => IrType::I32,
+    };
+    let (mut convert_instrs, shift_count) =
+        get_type_conversion_instrs(shift_count, count_type, converted_type, prog)?;
+    instrs.append(&mut convert_instrs);
+    Ok((instrs, shift_count))
+}
+
 pub fn get_type_conversion_instrs(
     src: Src,
     src_type: IrType,
-- 
2.43.0


From 32d91d006636f87f535705cbb2ea2e5ac13b4c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:03 +0000
Subject: [PATCH 41/67] fix: convert the integer added to a pointer to the
 width of an address

---
 src/middle_end/ast_to_ir.rs        | 14 +++++++++++++-
 src/middle_end/type_conversions.rs | 15 +++++++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 426ec69..3c1b975 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -18,7 +18,7 @@ use crate::middle_end::ir_types::{array_to_pointer_type, IrType, TypeSize};
 use crate::middle_end::middle_end_error::MiddleEndError;
 use crate::middle_end::type_conversions::{
     binary_convert, binary_convert_separately, convert_type_for_assignment,
-    convert_scalar_as_if_by_assignment, convert_shift_count, get_type_conversion_instrs, unary_convert,
+    convert_pointer_offset, convert_scalar_as_if_by_assignment, convert_shift_count, get_type_conversion_instrs, unary_convert,
 };
 
 pub fn convert_to_ir(ast: AstProgram) -> Result<Program, MiddleEndError> {
@@ -1475,6 +1475,12 @@ pub fn convert_expression_to_ir(
                         // pointer + int
                         // result is the pointer type
                         prog.add_var_type(dest.to_owned(), left_var_type.to_owned())?;
+                        // addresses are 32 bits
+                        let (mut convert_instrs, offset_var) =
+                            convert_pointer_offset(right_var, prog)?;
+                        instrs.append(&mut convert_instrs);
+                        right_var = offset_var;
+                        right_var_type = right_var.get_type(&prog.program_metadata)?;
                         // add to pointer in multiples of the byte size of the type it points to
                         let temp = prog.new_var(right_var.get_value_type());
                         prog.add_var_type(temp.to_owned(), right_var_type)?;
@@ -1530,6 +1536,12 @@ pub fn convert_expression_to_ir(
                         // pointer - integer
                         prog.add_var_type(dest.to_owned(), left_var_type.to_owned())?;
 
+                        // addresses are 32 bits
+                        let (mut convert_instrs, offset_var) =
+                            convert_pointer_offset(right_var, prog)?;
+                        instrs.append(&mut convert_instrs);
+                        right_var = offset_var;
+                        let right_var_type = right_var.get_type(&prog.program_metadata)?;
                         // subtract from pointer in multiples of the byte size it points to
                         let temp_right_var = prog.new_var(right_var.get_value_type());
                         prog.add_var_type(temp_right_var.to_owned(), right_var_type)?;
diff --git a/src/middle_end/type_conversions.rs b/src/middle_end/type_conversions.rs
index eb77577..caae0de 100644
--- a/src/middle_end/type_conversions.rs
+++ b/src/middle_end/type_conversions.rs
@@ -352,6 +352,21 @@ pub fn convert_shift_count(
     Ok((instrs, shift_count))
 }
 
+/// Addresses are 32 bits wide, so an integer that is added to or subtracted from a pointer is
+/// converted to that width.
+pub fn convert_pointer_offset(
+    offset: Src,
+    prog: &mut Program,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    let offset_type = offset.get_type(&prog.program_metadata)?;
+    match offset_type {
+        IrType::I64 | IrType::U64 => {
+            get_type_conversion_instrs(offset, offset_type, IrType::I32, prog)
+        }
+        _ => Ok((Vec::new(), offset)),
+    }
+}
+
 pub fn get_type_conversion_instrs(
     src: Src,
     src_type: IrType,
-- 
2.43.0


From 42f802bb434f37227b29ff04c21866b62042a181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:29 +0000
Subject: [PATCH 42/67] fix: the difference of two pointers is in elements

---
 src/middle_end/ast_to_ir.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 3c1b975..264aef2 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1578,6 +1578,36 @@ pub fn convert_expression_to_ir(
                     } else {
                         // pointer - pointer -> int
                         prog.add_var_type(dest.to_owned(), IrType::I32)?;
+
+                        // the difference is in multiples of the byte size they point to
+                        let byte_difference = prog.new_var(ValueType::RValue);
+                        prog.add_var_type(byte_difference.to_owned(), IrType::I32)?;
+                        instrs.push(Instruction::Sub(
+                            prog.new_instr_id(),
+                            byte_difference.to_owned(),
+                            left_var,
+                            right_var,
+                        ));
+                        let ptr_object_byte_size = match left_var_type
+                            .get_pointer_object_byte_size(&prog.program_metadata)?
+                        {
+                            TypeSize::CompileTime(size) => {
+                                Src::Constant(Constant::Int(size as i128))
+                            }
+                            TypeSize::Runtime(size_expr) => {
+                                let (mut size_expr_instrs, size_var) =
+                                    convert_expression_to_ir(size_expr, prog, context)?;
+                                instrs.append(&mut size_expr_instrs);
+                                size_var
+                            }
+                        };
+                        instrs.push(Instruction::Div(
+                            prog.new_instr_id(),
+                            dest.to_owned(),
+                            Src::Var(byte_difference),
+                            ptr_object_byte_size,
+                        ));
+                        return Ok((instrs, Src::Var(dest)));
                     }
                     instrs.push(Instruction::Sub(
                         prog.new_instr_id(),
-- 
2.43.0


From 48a9e2999cb4e45751c1bd9b5d92fa562a87bcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:11 +0000
Subject: [PATCH 43/67] fix: the logical not of a negative constant is 0

---
 src/middle_end/compile_time_eval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index 6f079d7..db5f0c9 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -58,10 +58,10 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
                 },
                 UnaryOperator::LogicalNot => match expr_result {
                     ConstantExpressionType::Int(i) => {
-                        Ok(ConstantExpressionType::Int(!(i > 0) as i128))
+                        Ok(ConstantExpressionType::Int((i == 0) as i128))
                     }
                     ConstantExpressionType::Float(f) => {
-                        Ok(ConstantExpressionType::Int(!(f > 0.) as i128))
+                        Ok(ConstantExpressionType::Int((f == 0.) as i128))
                     }
                 },
             }
-- 
2.43.0


From 5e94d7d97672d70fc0cdcbac7d5995e3c99f120c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:11 +0000
Subject: [PATCH 44/67] fix: the constant after an enum constant of INT_MAX
 doesn't overflow

---
 src/middle_end/get_ast_type_info.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index 837eace..9c66de3 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -157,13 +157,13 @@ pub fn get_type_info(
                         }
                     }
                     if !skip_constant_definition {
-                        let mut next_constant_value = 0;
+                        let mut next_constant_value: EnumConstant = 0;
                         for enum_constant in enum_constants {
                             match enum_constant {
                                 Enumerator::Simple(Identifier(name)) => {
                                     context
                                         .add_enum_constant(name.to_owned(), next_constant_value)?;
-                                    next_constant_value += 1;
+                                    next_constant_value = next_constant_value.wrapping_add(1);
                                 }
                                 Enumerator::WithValue(Identifier(name), value_expr) => {
                                     let value =
@@ -172,7 +172,7 @@ pub fn get_type_info(
                                     context.add_enum_constant(name.to_owned(), value)?;
                                     // value of next constant without explicit value is one more than
                                     // the last constant
-                                    next_constant_value = value + 1;
+                                    next_constant_value = value.wrapping_add(1);
                                 }
                             }
                         }
-- 
2.43.0


From 38f5cf2694791ef47a4d9d4488d4ffda4c745b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:31 +0000
Subject: [PATCH 45/67] fix: the scope of a variable declared in a for
 statement is the loop

---
 src/middle_end/ast_to_ir.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 264aef2..524e5a2 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -155,6 +155,8 @@ fn convert_statement_to_ir(
             let loop_start_label = prog.new_label();
             let loop_end_label = prog.new_label();
             let loop_continue_label = prog.new_label();
+            // a variable declared in the initialiser is only in scope inside the loop
+            context.push_scope();
             // optional initialiser statement - runs before the loop starts
             match init {
                 None => {}
@@ -219,6 +221,7 @@ fn convert_statement_to_ir(
             // end of loop label
             instrs.push(Instruction::Label(prog.new_instr_id(), loop_end_label));
             context.pop_loop();
+            context.pop_scope();
         }
         Statement::If(cond, body) => {
             // if statement condition
-- 
2.43.0


From bf06e91a57cf88273e85dd00dc11fb858ef34464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:33 +0000
Subject: [PATCH 46/67] fix: a goto may come before its label, and labels are
 local to their function

---
 src/middle_end/ast_to_ir.rs | 8 +++++++-
 src/middle_end/ir.rs        | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 524e5a2..983c0a0 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -324,7 +324,11 @@ fn convert_statement_to_ir(
         Statement::Labelled(stmt) => {
             match stmt {
                 LabelledStatement::Named(Identifier(label_name), stmt) => {
-                    let label = prog.new_identifier_label(label_name);
+                    // an earlier goto may already have referred to the label
+                    let label = match prog.resolve_identifier_to_label(&label_name) {
+                        Some(label) => label.to_owned(),
+                        None => prog.new_identifier_label(label_name),
+                    };
                     instrs.push(Instruction::Label(prog.new_instr_id(), label));
                     instrs.append(&mut convert_statement_to_ir(*stmt, prog, context)?);
                 }
@@ -677,6 +681,8 @@ fn convert_statement_to_ir(
                 Some(n) => n,
             };
             context.push_scope();
+            // labels are local to the function
+            prog.clear_identifier_labels();
             // for each parameter, store which var it maps to
             let mut param_var_mappings: Vec<VarId> = Vec::new();
             // put parameter names into scope
diff --git a/src/middle_end/ir.rs b/src/middle_end/ir.rs
index ac8c163..ab46887 100644
--- a/src/middle_end/ir.rs
+++ b/src/middle_end/ir.rs
@@ -336,6 +336,10 @@ impl Program {
         self.program_metadata.new_identifier_label(name)
     }
 
+    pub fn clear_identifier_labels(&mut self) {
+        self.program_metadata.label_ids.clear();
+    }
+
     pub fn resolve_identifier_to_label(&self, name: &str) -> Option<&LabelId> {
         self.program_metadata.label_ids.get(name)
     }
-- 
2.43.0


From b7e30fcce8fe7ab788c388634e25a2fdd2051ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:25 +0000
Subject: [PATCH 47/67] fix: sizeof is the size in bytes of an array or string,
 and doesn't evaluate its operand

---
 src/middle_end/ast_to_ir.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 983c0a0..328eece 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1290,12 +1290,28 @@ pub fn convert_expression_to_ir(
             }
         }
         Expression::SizeOfExpr(e) => {
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*e, prog, context)?;
-            instrs.append(&mut expr_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+            // a string literal is an array of its characters and the terminating null
+            let string_literal_size = match &*e {
+                Expression::StringLiteral(s) => Some(s.chars().count() as u64 + 1),
+                _ => None,
+            };
+            // only the type of the operand is needed, it isn't evaluated. An array member mustn't
+            // decay to a pointer here
+            context.directly_on_lhs_of_assignment = true;
+            let (_, expr_var) = convert_expression_to_ir(*e, prog, context)?;
+            context.directly_on_lhs_of_assignment = false;
+            let mut expr_var_type = match &expr_var {
+                Src::Constant(c) => c.get_type_minimum_i32(),
+                expr_var => expr_var.get_type(&prog.program_metadata)?,
+            };
+            if let Src::StoreAddressVar(_) = expr_var {
+                expr_var_type = expr_var_type.dereference_pointer_type()?;
+            }
 
-            let type_size = if expr_var_type.is_array_type() {
-                expr_var_type.get_array_size()?
+            let type_size = if let Some(size) = string_literal_size {
+                TypeSize::CompileTime(size)
+            } else if expr_var_type.is_array_type() {
+                expr_var_type.get_array_byte_size(&prog.program_metadata)?
             } else {
                 expr_var_type.get_byte_size(&prog.program_metadata)
             };
@@ -1323,7 +1339,7 @@ pub fn convert_expression_to_ir(
                 Some(x) => x,
             };
             let type_size = if type_info.is_array_type() {
-                type_info.get_array_size()?
+                type_info.get_array_byte_size(&prog.program_metadata)?
             } else {
                 type_info.get_byte_size(&prog.program_metadata)
             };
-- 
2.43.0


From a52bcb505430827a3487184f46ad50222d5f428b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:07 +0000
Subject: [PATCH 48/67] fix: accept a double as a condition

---
 src/back_end/memory_operations.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/back_end/memory_operations.rs b/src/back_end/memory_operations.rs
index 06bbbac..2761865 100644
--- a/src/back_end/memory_operations.rs
+++ b/src/back_end/memory_operations.rs
@@ -182,15 +182,11 @@ pub fn load_constant(
         },
         IrType::F32 => match constant {
             Constant::Float(z) => wasm_instrs.push(WasmInstruction::F32Const { z: z as f32 }),
-            Constant::Int(_) => {
-                unreachable!()
-            }
+            Constant::Int(n) => wasm_instrs.push(WasmInstruction::F32Const { z: n as f32 }),
         },
         IrType::F64 => match constant {
             Constant::Float(z) => wasm_instrs.push(WasmInstruction::F64Const { z }),
-            Constant::Int(_) => {
-                unreachable!()
-            }
+            Constant::Int(n) => wasm_instrs.push(WasmInstruction::F64Const { z: n as f64 }),
         },
         t => {
             debug!("{}", t);
-- 
2.43.0


From 911c29cb7debc1c3610d20189e214512baae780b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 49/67] fix: the elements of an array of arrays are arrays

---
 src/middle_end/aggregate_type_initialisers.rs |  4 +++-
 src/middle_end/ast_to_ir.rs                   | 13 ++++++++++++-
 src/middle_end/ir_types.rs                    | 14 +++++++++++---
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/middle_end/aggregate_type_initialisers.rs b/src/middle_end/aggregate_type_initialisers.rs
index 9719ab8..d068507 100644
--- a/src/middle_end/aggregate_type_initialisers.rs
+++ b/src/middle_end/aggregate_type_initialisers.rs
@@ -19,7 +19,9 @@ pub fn array_initialiser(
 
     let array_member_type = dest_type_info.unwrap_array_type()?;
     // sizes of array members must be known at compile time
-    let array_member_byte_size = match array_member_type.get_byte_size(&prog.program_metadata) {
+    let array_member_byte_size = match array_member_type
+        .get_object_byte_size(&prog.program_metadata)?
+    {
         TypeSize::CompileTime(size) => size,
         TypeSize::Runtime(_) => return Err(MiddleEndError::ArrayMemberSizeNotKnownAtCompileTime),
     };
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 328eece..14a9aeb 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -815,7 +815,8 @@ pub fn convert_expression_to_ir(
             }
 
             // multiply index by size of element, to get number of bytes to advance ptr by
-            let element_byte_size = arr_inner_type.get_byte_size(&prog.program_metadata);
+            let element_byte_size =
+                arr_var_type.get_pointer_object_byte_size(&prog.program_metadata)?;
             let byte_size_var = match element_byte_size {
                 TypeSize::CompileTime(byte_size) => Src::Constant(Constant::Int(byte_size as i128)),
                 TypeSize::Runtime(byte_size_expr) => {
@@ -851,6 +852,16 @@ pub fn convert_expression_to_ir(
             if this_expr_directly_on_lhs_of_assignment {
                 // store to array index
                 Ok((instrs, Src::StoreAddressVar(ptr)))
+            } else if let IrType::ArrayOf(element_type, _) = arr_inner_type {
+                // an array element decays to a pointer to its first element
+                let dest = prog.new_var(ValueType::RValue);
+                prog.add_var_type(dest.to_owned(), IrType::PointerTo(element_type))?;
+                instrs.push(Instruction::SimpleAssignment(
+                    prog.new_instr_id(),
+                    dest.to_owned(),
+                    Src::Var(ptr),
+                ));
+                Ok((instrs, Src::Var(dest)))
             } else {
                 // read from array index
                 let dest = prog.new_var(ValueType::LValue);
diff --git a/src/middle_end/ir_types.rs b/src/middle_end/ir_types.rs
index e0fd1ff..3c900f5 100644
--- a/src/middle_end/ir_types.rs
+++ b/src/middle_end/ir_types.rs
@@ -102,15 +102,23 @@ impl IrType {
         prog: &ProgramMetadata,
     ) -> Result<TypeSize, MiddleEndError> {
         match self {
-            IrType::PointerTo(inner_type) => Ok(inner_type.get_byte_size(prog)),
+            IrType::PointerTo(inner_type) => inner_type.get_object_byte_size(prog),
             t => Err(MiddleEndError::DereferenceNonPointerType(t.to_owned())),
         }
     }
 
+    /// Get the size of an object of this type: for an array that's all of its elements
+    pub fn get_object_byte_size(&self, prog: &ProgramMetadata) -> Result<TypeSize, MiddleEndError> {
+        match self {
+            IrType::ArrayOf(..) => self.get_array_byte_size(prog),
+            t => Ok(t.get_byte_size(prog)),
+        }
+    }
+
     pub fn get_array_byte_size(&self, prog: &ProgramMetadata) -> Result<TypeSize, MiddleEndError> {
         match self {
             IrType::ArrayOf(inner_type, count) => match count {
-                Some(TypeSize::CompileTime(count)) => match inner_type.get_byte_size(prog) {
+                Some(TypeSize::CompileTime(count)) => match inner_type.get_object_byte_size(prog)? {
                     TypeSize::CompileTime(t_size) => match t_size.checked_mul(*count) {
                         // addresses are 32 bits, so no object can be larger than this
                         Some(size) if size <= i32::MAX as u64 => Ok(TypeSize::CompileTime(size)),
@@ -122,7 +130,7 @@ impl IrType {
                         Box::new(Expression::Constant(Constant::Int(*count as u128))),
                     ))),
                 },
-                Some(TypeSize::Runtime(count_expr)) => match inner_type.get_byte_size(prog) {
+                Some(TypeSize::Runtime(count_expr)) => match inner_type.get_object_byte_size(prog)? {
                     TypeSize::CompileTime(t_size) => Ok(TypeSize::Runtime(Expression::BinaryOp(
                         BinaryOperator::Mult,
                         Box::new(count_expr.to_owned()),
-- 
2.43.0


From dc999047f4119356c1f8d1f86e2769b8a739eb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:23 +0000
Subject: [PATCH 50/67] fix: global initialisers may have control flow

---
 src/back_end/target_code_generation.rs         | 5 ++++-
 src/back_end/target_code_generation_context.rs | 4 ++--
 src/relooper/relooper.rs                       | 3 +++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index 3c8c9db..f485ae1 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -118,7 +118,10 @@ pub fn generate_target_code(
         //     &prog.program_metadata,
         // );
 
-        let mut global_context = FunctionContext::global_context(global_var_addrs.to_owned());
+        let mut global_context = FunctionContext::global_context(
+            global_var_addrs.to_owned(),
+            prog.program_blocks.global_label_variable.unwrap(),
+        );
 
         global_wasm_instrs.append(&mut convert_block_to_wasm(
             global_block,
diff --git a/src/back_end/target_code_generation_context.rs b/src/back_end/target_code_generation_context.rs
index 7966938..d11ea39 100644
--- a/src/back_end/target_code_generation_context.rs
+++ b/src/back_end/target_code_generation_context.rs
@@ -90,11 +90,11 @@ impl FunctionContext {
         }
     }
 
-    pub fn global_context(global_var_addrs: HashMap<VarId, u32>) -> Self {
+    pub fn global_context(global_var_addrs: HashMap<VarId, u32>, label_variable: VarId) -> Self {
         FunctionContext {
             var_fp_offsets: HashMap::new(),
             global_var_addrs,
-            label_variable: VarId::initial_id(), // dummy var, because global instrs don't have any control flow
+            label_variable,
             control_flow_stack: Vec::new(),
         }
     }
diff --git a/src/relooper/relooper.rs b/src/relooper/relooper.rs
index c4e42e2..6bdc5db 100644
--- a/src/relooper/relooper.rs
+++ b/src/relooper/relooper.rs
@@ -47,6 +47,7 @@ pub struct ReloopedFunction {
 pub struct ProgramBlocks {
     pub functions: HashMap<FunId, ReloopedFunction>,
     pub global_instrs: Option<Block>,
+    pub global_label_variable: Option<VarId>,
 }
 
 impl ProgramBlocks {
@@ -54,6 +55,7 @@ impl ProgramBlocks {
         ProgramBlocks {
             functions: HashMap::new(),
             global_instrs: None,
+            global_label_variable: None,
         }
     }
 }
@@ -141,6 +143,7 @@ pub fn reloop(mut prog: Program) -> ReloopedProgram {
                 info!("Created block for global instructions:\n{}", block);
                 assert_no_branch_instrs_left(&block);
                 program_blocks.global_instrs = Some(block);
+                program_blocks.global_label_variable = Some(label_var);
             }
             None => error!("No block created for global instructions, even though non-empty"),
         }
-- 
2.43.0


From 78d46e1d5969af3a71adb65d2017e0807aa98596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 51/67] fix: a static variable of a function keeps its value
 between calls

---
 src/middle_end/ast_to_ir.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 14a9aeb..d4dc22b 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -3,7 +3,8 @@ use log::trace;
 use crate::front_end::ast;
 use crate::front_end::ast::{
     BinaryOperator, DeclaratorInitialiser, Expression, ExpressionOrDeclaration, Identifier,
-    Initialiser, LabelledStatement, Program as AstProgram, Statement, TypeSpecifier, UnaryOperator,
+    Initialiser, LabelledStatement, Program as AstProgram, Statement, StorageClassSpecifier,
+    TypeSpecifier, UnaryOperator,
 };
 use crate::middle_end::aggregate_type_initialisers::{
     array_initialiser, convert_string_literal_to_init_list_of_chars_ast, struct_initialiser,
@@ -377,6 +378,12 @@ fn convert_statement_to_ir(
             instrs.append(&mut expr_instrs);
         }
         Statement::Declaration(sq, declarators) => {
+            // a static variable of a function is initialised once, like a global variable
+            let is_static_in_function = context.function_return_type.is_some()
+                && matches!(
+                    sq.storage_class_specifier,
+                    Some(StorageClassSpecifier::Static)
+                );
             let mut is_initial_declarator = true;
             for declarator in declarators {
                 match declarator {
@@ -653,6 +660,9 @@ fn convert_statement_to_ir(
                 }
                 is_initial_declarator = false;
             }
+            if is_static_in_function {
+                prog.program_instructions.global_instrs.append(&mut instrs);
+            }
         }
         Statement::EmptyDeclaration(sq) => {
             match get_type_info(&sq, None, false, prog, context)? {
-- 
2.43.0


From 5086176659b88134ccb223097cc5651a6cd911b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:48 +0000
Subject: [PATCH 52/67] fix: printf's %f prints 6 decimal places

---
 runtime/number_operations.mjs | 36 +++++++++++++++++++++++++++++++++++
 runtime/stdlib/stdio.mjs      |  4 ++--
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/runtime/number_operations.mjs b/runtime/number_operations.mjs
index 16f9777..62f10f5 100644
--- a/runtime/number_operations.mjs
+++ b/runtime/number_operations.mjs
@@ -20,3 +20,39 @@ export function signed_to_unsigned_i64(value) {
     }
     return value;
 }
+
+// the decimal digits of a double, rounded to 6 decimal places as C's printf does
+export function double_to_fixed(value) {
+    if (Number.isNaN(value)) {
+        return "nan";
+    }
+    const sign = value < 0 || Object.is(value, -0) ? "-" : "";
+    if (!Number.isFinite(value)) {
+        return `${sign}inf`;
+    }
+    // value = +/- mantissa * 2 ** exponent
+    const view = new DataView(new ArrayBuffer(8));
+    view.setFloat64(0, value);
+    const bits = view.getBigUint64(0);
+    const exponent_bits = (bits >> 52n) & 0x7ffn;
+    let mantissa = bits & 0xfffffffffffffn;
+    let exponent = -1074n;
+    if (exponent_bits !== 0n) {
+        mantissa |= 0x10000000000000n;
+        exponent = exponent_bits - 1075n;
+    }
+    let millionths = mantissa * 1_000_000n;
+    if (exponent >= 0n) {
+        millionths <<= exponent;
+    } else {
+        // round to nearest, ties to even
+        const remainder = BigInt.asUintN(Number(-exponent), millionths);
+        const half = 1n << (-exponent - 1n);
+        millionths >>= -exponent;
+        if (remainder > half || (remainder === half && millionths % 2n === 1n)) {
+            millionths += 1n;
+        }
+    }
+    const digits = millionths.toString().padStart(7, "0");
+    return `${sign}${digits.slice(0, -6)}.${digits.slice(-6)}`;
+}
diff --git a/runtime/stdlib/stdio.mjs b/runtime/stdlib/stdio.mjs
index de51c1f..84beca2 100644
--- a/runtime/stdlib/stdio.mjs
+++ b/runtime/stdlib/stdio.mjs
@@ -12,7 +12,7 @@ import {
     read_string,
     read_double,
 } from "../memory_operations.mjs";
-import {signed_to_unsigned_i16, signed_to_unsigned_i32, signed_to_unsigned_i64} from "../number_operations.mjs";
+import {double_to_fixed, signed_to_unsigned_i16, signed_to_unsigned_i32, signed_to_unsigned_i64} from "../number_operations.mjs";
 
 // print a null-terminated string from memory to console
 // int printf(const char *format, ...);
@@ -91,7 +91,7 @@ export function printf(wasm_memory) {
                             break;
                         case "f":
                             // double
-                            value = next_vararg_double();
+                            value = double_to_fixed(next_vararg_double());
                             break;
                         case "c":
                             // char
-- 
2.43.0


From 756c376acd91a8d3e550bb409fe88775795e1ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 53/67] fix: the object at a computed address can be assigned
 to

---
 src/middle_end/instructions.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/instructions.rs b/src/middle_end/instructions.rs
index a3c273d..e8357f3 100644
--- a/src/middle_end/instructions.rs
+++ b/src/middle_end/instructions.rs
@@ -84,7 +84,9 @@ impl Src {
 
     pub fn get_value_type(&self) -> ValueType {
         match self {
-            Src::Var(var) | Src::StoreAddressVar(var) => var.get_value_type(),
+            Src::Var(var) => var.get_value_type(),
+            // whatever an address is computed by, the object at the address is an lvalue
+            Src::StoreAddressVar(_) => ValueType::LValue,
             Src::Constant(_) => ValueType::RValue,
             Src::Fun(_) => ValueType::RValue,
         }
-- 
2.43.0


From e8bd280e4d08f721ae528c67846fba24bc51c52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:57 +0000
Subject: [PATCH 54/67] fix: select members of the struct itself, not of a copy

---
 src/middle_end/ast_to_ir.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index d4dc22b..930e7d1 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -943,22 +943,34 @@ pub fn convert_expression_to_ir(
             Ok((instrs, Src::Var(dest)))
         }
         Expression::DirectMemberSelection(obj, Identifier(member_name)) => {
+            // the address of the object is needed, not its value
+            context.directly_on_lhs_of_assignment = true;
             let (mut obj_instrs, obj_var) = convert_expression_to_ir(*obj, prog, context)?;
+            context.directly_on_lhs_of_assignment = false;
             instrs.append(&mut obj_instrs);
-            let obj_var_type = obj_var.get_type(&prog.program_metadata)?;
+            let mut obj_var_type = obj_var.get_type(&prog.program_metadata)?;
+            if let Src::StoreAddressVar(_) = obj_var {
+                obj_var_type = obj_var_type.dereference_pointer_type()?;
+            }
             obj_var_type.require_struct_or_union_type()?;
 
-            // obj_ptr = &obj_var
-            let obj_ptr = prog.new_var(obj_var.get_value_type());
-            prog.add_var_type(
-                obj_ptr.to_owned(),
-                IrType::PointerTo(Box::new(obj_var_type.to_owned())),
-            )?;
-            instrs.push(Instruction::AddressOf(
-                prog.new_instr_id(),
-                obj_ptr.to_owned(),
-                obj_var,
-            ));
+            let obj_ptr = match obj_var {
+                Src::StoreAddressVar(ptr) => ptr,
+                obj_var => {
+                    // obj_ptr = &obj_var
+                    let obj_ptr = prog.new_var(obj_var.get_value_type());
+                    prog.add_var_type(
+                        obj_ptr.to_owned(),
+                        IrType::PointerTo(Box::new(obj_var_type.to_owned())),
+                    )?;
+                    instrs.push(Instruction::AddressOf(
+                        prog.new_instr_id(),
+                        obj_ptr.to_owned(),
+                        obj_var,
+                    ));
+                    obj_ptr
+                }
+            };
 
             match obj_var_type {
                 IrType::Struct(struct_id) => {
-- 
2.43.0


From a8927e7a67fd6f83aa87459c02e49385b64d03dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 55/67] fix: evaluate the left operand of a compound assignment
 once

---
 src/front_end/ast.rs                |  9 ++++++++
 src/front_end/c_parser.lalrpop      | 20 ++++++++--------
 src/middle_end/ast_to_ir.rs         | 36 +++++++++++++++++++++++++++++
 src/middle_end/compile_time_eval.rs |  3 ++-
 4 files changed, 57 insertions(+), 11 deletions(-)

diff --git a/src/front_end/ast.rs b/src/front_end/ast.rs
index 0d98dd7..08ec51f 100644
--- a/src/front_end/ast.rs
+++ b/src/front_end/ast.rs
@@ -247,6 +247,7 @@ pub enum Expression {
     BinaryOp(BinaryOperator, Box<Expression>, Box<Expression>),
     Ternary(Box<Expression>, Box<Expression>, Box<Expression>),
     Assignment(Box<Expression>, Box<Expression>),
+    CompoundAssignment(BinaryOperator, Box<Expression>, Box<Expression>),
     Cast(TypeName, Box<Expression>),
     ExpressionList(Box<Expression>, Box<Expression>),
 }
@@ -302,6 +303,14 @@ impl AstNode for Expression {
             Expression::Assignment(l, r) => {
                 format!("{} = {}", l.reconstruct_source(), r.reconstruct_source())
             }
+            Expression::CompoundAssignment(op, l, r) => {
+                format!(
+                    "{} {}= {}",
+                    l.reconstruct_source(),
+                    op.reconstruct_source(),
+                    r.reconstruct_source()
+                )
+            }
             Expression::Cast(t, e) => {
                 format!("({}) {}", t.reconstruct_source(), e.reconstruct_source())
             }
diff --git a/src/front_end/c_parser.lalrpop b/src/front_end/c_parser.lalrpop
index b679a5a..8d1d198 100644
--- a/src/front_end/c_parser.lalrpop
+++ b/src/front_end/c_parser.lalrpop
@@ -370,25 +370,25 @@ AssignmentExpression: ast::Expression = {
   <dest:ConditionalExpression> "=" <src:AssignmentExpression>
     => ast::Expression::Assignment(Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "*=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::Mult, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::Mult, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "/=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::Div, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::Div, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "%=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::Mod, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::Mod, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "+=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::Add, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::Add, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "-=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::Sub, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::Sub, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "<<=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::LeftShift, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::LeftShift, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> ">>=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::RightShift, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::RightShift, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "&=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::BitwiseAnd, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::BitwiseAnd, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "^=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::BitwiseXor, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::BitwiseXor, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "|=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::BitwiseOr, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::BitwiseOr, Box::new(dest), Box::new(src)),
 }
 
 ConditionalExpression: ast::Expression = {
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 930e7d1..b22b4ed 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -2034,6 +2034,42 @@ pub fn convert_expression_to_ir(
             }
             Ok((instrs, Src::Var(dest)))
         }
+        Expression::CompoundAssignment(op, dest_expr, src_expr) => {
+            if let Expression::Identifier(_) = *dest_expr {
+                let value_expr = Expression::BinaryOp(op, dest_expr.to_owned(), src_expr);
+                return convert_expression_to_ir(
+                    Expression::Assignment(dest_expr, Box::new(value_expr)),
+                    prog,
+                    context,
+                );
+            }
+            // the operand on the left is only evaluated once, so keep the address of the object
+            let (mut ptr_instrs, ptr) = convert_expression_to_ir(
+                Expression::UnaryOp(UnaryOperator::AddressOf, dest_expr),
+                prog,
+                context,
+            )?;
+            instrs.append(&mut ptr_instrs);
+            let ptr_var = ptr.unwrap_var()?;
+            let ptr_type = prog.get_var_type(&ptr_var)?;
+            context.push_scope();
+            // not a name that could be used in the source program
+            let ptr_name = "*compound assignment".to_owned();
+            context.add_variable_to_scope(ptr_name.to_owned(), ptr_var, ptr_type)?;
+            let object_expr = Box::new(Expression::UnaryOp(
+                UnaryOperator::Dereference,
+                Box::new(Expression::Identifier(Identifier(ptr_name))),
+            ));
+            let value_expr = Expression::BinaryOp(op, object_expr.to_owned(), src_expr);
+            let (mut assign_instrs, dest) = convert_expression_to_ir(
+                Expression::Assignment(object_expr, Box::new(value_expr)),
+                prog,
+                context,
+            )?;
+            context.pop_scope();
+            instrs.append(&mut assign_instrs);
+            Ok((instrs, dest))
+        }
         Expression::Cast(cast_type_decl, expr) => {
             let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
             instrs.append(&mut expr_instrs);
diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index db5f0c9..3d71fda 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -278,6 +278,7 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
         | Expression::PostfixDecrement(_)
         | Expression::PrefixIncrement(_)
         | Expression::PrefixDecrement(_)
-        | Expression::Assignment(_, _) => Err(MiddleEndError::InvalidConstantExpression),
+        | Expression::Assignment(_, _)
+        | Expression::CompoundAssignment(_, _, _) => Err(MiddleEndError::InvalidConstantExpression),
     }
 }
-- 
2.43.0


From adb2d055d3aacc949f7fece4b0d225e99d24517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 56/67] fix: initialise the members of nested structs

---
 src/middle_end/aggregate_type_initialisers.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/middle_end/aggregate_type_initialisers.rs b/src/middle_end/aggregate_type_initialisers.rs
index d068507..f4c7399 100644
--- a/src/middle_end/aggregate_type_initialisers.rs
+++ b/src/middle_end/aggregate_type_initialisers.rs
@@ -156,11 +156,20 @@ pub fn struct_initialiser(
             IrType::PointerTo(Box::new(member_type.to_owned())),
         )?;
         // member_ptr_var = &dest + byte_offset
-        instrs.push(Instruction::AddressOf(
-            prog.new_instr_id(),
-            member_ptr_var.to_owned(),
-            Src::Var(dest.to_owned()),
-        ));
+        if prog.get_var_type(&dest)?.is_pointer_type() {
+            // a nested struct: dest already is the address of the struct
+            instrs.push(Instruction::SimpleAssignment(
+                prog.new_instr_id(),
+                member_ptr_var.to_owned(),
+                Src::Var(dest.to_owned()),
+            ));
+        } else {
+            instrs.push(Instruction::AddressOf(
+                prog.new_instr_id(),
+                member_ptr_var.to_owned(),
+                Src::Var(dest.to_owned()),
+            ));
+        }
         instrs.push(Instruction::Add(
             prog.new_instr_id(),
             member_ptr_var.to_owned(),
-- 
2.43.0


From 2b4127a7a9b5f9c7101f23f0d840d290a7e9143e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 57/67] fix: don't write a pointer into a struct that is
 initialised

---
 src/middle_end/ast_to_ir.rs | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index b22b4ed..79a2b21 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -617,25 +617,9 @@ fn convert_statement_to_ir(
                                                 dest_type.to_owned(),
                                             )?;
 
-                                            let byte_size = match dest_type
-                                                .get_byte_size(&prog.program_metadata)
-                                            {
-                                                TypeSize::CompileTime(size) => {
-                                                    Src::Constant(Constant::Int(size as i128))
-                                                }
-                                                TypeSize::Runtime(size_expr) => {
-                                                    let (mut size_expr_instrs, size_var) =
-                                                        convert_expression_to_ir(
-                                                            size_expr, prog, context,
-                                                        )?;
-                                                    instrs.append(&mut size_expr_instrs);
-                                                    size_var
-                                                }
-                                            };
-                                            instrs.push(Instruction::AllocateVariable(
+                                            instrs.push(Instruction::DeclareVariable(
                                                 prog.new_instr_id(),
                                                 dest.to_owned(),
-                                                byte_size,
                                             ));
 
                                             let mut init_instrs = struct_initialiser(
-- 
2.43.0


From 8633b0672ddddc7215a120a7007216e1e3625024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:18 +0000
Subject: [PATCH 58/67] fix: give decimal constants above INT_MAX a signed type

---
 src/front_end/ast.rs                | 14 +++++++++++++-
 src/front_end/c_parser.lalrpop      |  2 +-
 src/middle_end/ast_to_ir.rs         | 10 ++++++++++
 src/middle_end/compile_time_eval.rs |  2 +-
 4 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/front_end/ast.rs b/src/front_end/ast.rs
index 08ec51f..7fd436a 100644
--- a/src/front_end/ast.rs
+++ b/src/front_end/ast.rs
@@ -39,14 +39,26 @@ impl AstNode for Identifier {
 #[derive(Debug, Clone, PartialEq)]
 pub enum Constant {
     Int(u128),
+    /// a constant whose spelling makes it a long int, although unsigned int can represent it
+    Long(u128),
     Float(f64),
     Char(char),
 }
 
+impl Constant {
+    /// a decimal constant never has an unsigned type if a signed one can represent it
+    pub fn decimal(value: u128) -> Self {
+        match value {
+            0x8000_0000..=0xffff_ffff => Constant::Long(value),
+            _ => Constant::Int(value),
+        }
+    }
+}
+
 impl AstNode for Constant {
     fn reconstruct_source(&self) -> String {
         match self {
-            Constant::Int(i) => format!("{i}"),
+            Constant::Int(i) | Constant::Long(i) => format!("{i}"),
             Constant::Float(f) => format!("{f}"),
             Constant::Char(c) => format!("'{c}'"),
         }
diff --git a/src/front_end/c_parser.lalrpop b/src/front_end/c_parser.lalrpop
index 8d1d198..9bcf4d2 100644
--- a/src/front_end/c_parser.lalrpop
+++ b/src/front_end/c_parser.lalrpop
@@ -138,13 +138,13 @@ CommaSepListWithTrailing<T>: Vec<T> = {
 pub Identifier: ast::Identifier = "Identifier" => ast::Identifier(<>.to_owned());
 
 pub Constant: ast::Constant = {
+  DecimalConstant => ast::Constant::decimal(<>),
   IntegerConstant => ast::Constant::Int(<>),
   DecimalFloatingConstant => ast::Constant::Float(<>),
   CharConstant => ast::Constant::Char(<>),
 };
 
 IntegerConstant: u128 = {
-  DecimalConstant,
   BinaryConstant,
   OctalConstant,
   HexConstant,
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 79a2b21..a330986 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -749,6 +749,16 @@ pub fn convert_expression_to_ir(
         }
         Expression::Constant(c) => match c {
             ast::Constant::Int(i) => Ok((instrs, Src::Constant(Constant::Int(i as i128)))),
+            ast::Constant::Long(i) => {
+                let dest = prog.new_var(ValueType::RValue);
+                prog.add_var_type(dest.to_owned(), IrType::I64)?;
+                instrs.push(Instruction::SimpleAssignment(
+                    prog.new_instr_id(),
+                    dest.to_owned(),
+                    Src::Constant(Constant::Int(i as i128)),
+                ));
+                Ok((instrs, Src::Var(dest)))
+            }
             ast::Constant::Float(f) => Ok((instrs, Src::Constant(Constant::Float(f)))),
             ast::Constant::Char(ch) => Ok((instrs, Src::Constant(Constant::Int(ch as i8 as i128)))),
         },
diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index 3d71fda..e8fc24d 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -30,7 +30,7 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
     match expr {
         Expression::Identifier(_) => Err(MiddleEndError::CantEvaluateAtCompileTime),
         Expression::Constant(c) => match c {
-            AstConstant::Int(i) => Ok(ConstantExpressionType::Int(i as i128)),
+            AstConstant::Int(i) | AstConstant::Long(i) => Ok(ConstantExpressionType::Int(i as i128)),
             AstConstant::Float(f) => Ok(ConstantExpressionType::Float(f)),
             AstConstant::Char(c) => Ok(ConstantExpressionType::Int(c as i8 as i128)),
         },
-- 
2.43.0


From 7effc5a24e9bdcc99b7b35341d648ff39d04f6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:25 +0000
Subject: [PATCH 59/67] fix: the negative of an unsigned constant is unsigned

---
 src/middle_end/ast_to_ir.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index a330986..1325a8b 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1265,7 +1265,9 @@ pub fn convert_expression_to_ir(
                     }
                     // the negative of a constant may need a larger type than the constant
                     let dest_type = match &expr_var {
-                        Src::Constant(_) => expr_var_type.smallest_signed_equivalent()?,
+                        Src::Constant(_) if expr_var_type != IrType::U32 => {
+                            expr_var_type.smallest_signed_equivalent()?
+                        }
                         _ => expr_var_type,
                     };
                     let zero = match dest_type {
-- 
2.43.0


From cb8add5a23adcc23a95af3d131d6c5b954214121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:25 +0000
Subject: [PATCH 60/67] fix: a pointer to an array is the address of the array

---
 src/middle_end/ast_to_ir.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 1325a8b..691afcf 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1138,11 +1138,20 @@ pub fn convert_expression_to_ir(
                 ));
                 return Ok((instrs, Src::Var(dest)));
             }
-            instrs.push(Instruction::AddressOf(
-                prog.new_instr_id(),
-                dest.to_owned(),
-                expr_var,
-            ));
+            if let IrType::ArrayOf(_, _) = expr_var_type {
+                // array variable is a pointer to the start of the array
+                instrs.push(Instruction::SimpleAssignment(
+                    prog.new_instr_id(),
+                    dest.to_owned(),
+                    expr_var,
+                ));
+            } else {
+                instrs.push(Instruction::AddressOf(
+                    prog.new_instr_id(),
+                    dest.to_owned(),
+                    expr_var,
+                ));
+            }
             // store type of dest
             prog.add_var_type(dest.to_owned(), IrType::PointerTo(Box::new(expr_var_type)))?;
             Ok((instrs, Src::Var(dest)))
@@ -1163,6 +1172,18 @@ pub fn convert_expression_to_ir(
                     }
                     _ => Err(MiddleEndError::DereferenceNonPointerType(expr_var_type)),
                 }
+            } else if let Ok(IrType::ArrayOf(element_type, _)) =
+                expr_var_type.dereference_pointer_type()
+            {
+                // the array decays to a pointer to its first element
+                let dest = prog.new_var(ValueType::RValue);
+                prog.add_var_type(dest.to_owned(), IrType::PointerTo(element_type))?;
+                instrs.push(Instruction::SimpleAssignment(
+                    prog.new_instr_id(),
+                    dest.to_owned(),
+                    expr_var,
+                ));
+                Ok((instrs, Src::Var(dest)))
             } else {
                 // dereference load from memory address
                 let dest = prog.new_var(ValueType::LValue);
-- 
2.43.0


From 585e51606d215ad6106c399908bf76e67cd3c9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:22 +0000
Subject: [PATCH 61/67] fix: don't assign the value of a void ?:

---
 src/middle_end/ast_to_ir.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 691afcf..d3d7bb9 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1967,14 +1967,19 @@ pub fn convert_expression_to_ir(
                 false_binary_convert_instrs = false_convert_instrs;
                 instrs.append(&mut true_binary_convert_instrs);
             }
-            prog.add_var_type(dest.to_owned(), true_var.get_type(&prog.program_metadata)?)?;
+            let result_type = true_var.get_type(&prog.program_metadata)?;
+            // void operands have no value to assign
+            let has_value = result_type != IrType::Void;
+            prog.add_var_type(dest.to_owned(), result_type)?;
 
             // assign the result to dest
-            instrs.push(Instruction::SimpleAssignment(
-                prog.new_instr_id(),
-                dest.to_owned(),
-                true_var,
-            ));
+            if has_value {
+                instrs.push(Instruction::SimpleAssignment(
+                    prog.new_instr_id(),
+                    dest.to_owned(),
+                    true_var,
+                ));
+            }
             // jump over the false instructions
             instrs.push(Instruction::Br(prog.new_instr_id(), end_label.to_owned()));
             // false instructions
@@ -1983,11 +1988,13 @@ pub fn convert_expression_to_ir(
             instrs.append(&mut unary_convert_false_instrs);
             instrs.append(&mut false_binary_convert_instrs);
             // assign the result to dest
-            instrs.push(Instruction::SimpleAssignment(
-                prog.new_instr_id(),
-                dest.to_owned(),
-                false_var,
-            ));
+            if has_value {
+                instrs.push(Instruction::SimpleAssignment(
+                    prog.new_instr_id(),
+                    dest.to_owned(),
+                    false_var,
+                ));
+            }
             instrs.push(Instruction::Label(prog.new_instr_id(), end_label));
 
             Ok((instrs, Src::Var(dest)))
-- 
2.43.0


From 75fd236b2a46dd5a25760ce505df132d182910f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:24 +0000
Subject: [PATCH 62/67] fix: drop unreachable instrs after a return

---
 src/relooper/soupify.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/relooper/soupify.rs b/src/relooper/soupify.rs
index 1fdf9dd..d674f73 100644
--- a/src/relooper/soupify.rs
+++ b/src/relooper/soupify.rs
@@ -121,15 +121,18 @@ fn remove_consecutive_labels(instrs: &mut Vec<Instruction>) {
     })
 }
 
-/// Remove any instructions after an unconditional branch and before the next label,
-/// which can never be reached, so that a block only ever ends with a branch
+/// Remove any instructions after an unconditional branch or a return and before the next
+/// label, which can never be reached, so that a block only ever ends with a branch
 fn remove_instrs_after_branch(instrs: &mut Vec<Instruction>) {
     let mut prev_instr_was_branch = false;
     instrs.retain(|instr| {
         if prev_instr_was_branch && !matches!(instr, Instruction::Label(..)) {
             return false;
         }
-        prev_instr_was_branch = matches!(instr, Instruction::Br(..));
+        prev_instr_was_branch = matches!(
+            instr,
+            Instruction::Br(..) | Instruction::Ret(..) | Instruction::TailCall(..)
+        );
         true
     })
 }
-- 
2.43.0


From dccbf1441e4f9832895931bd0a1427e73f762649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:01 +0000
Subject: [PATCH 63/67] fix: a cast gives a constant its type

---
 src/middle_end/ast_to_ir.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index d3d7bb9..3d12307 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -2106,8 +2106,19 @@ pub fn convert_expression_to_ir(
             // get conversion instrs into cast type
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
             let (mut cast_instrs, dest) =
-                get_type_conversion_instrs(expr_var, expr_var_type, cast_type, prog)?;
+                get_type_conversion_instrs(expr_var, expr_var_type, cast_type.to_owned(), prog)?;
             instrs.append(&mut cast_instrs);
+            if let Src::Constant(_) = dest {
+                // the type of a constant is found from its value, so keep the type of the cast
+                let dest_var = prog.new_var(ValueType::RValue);
+                prog.add_var_type(dest_var.to_owned(), cast_type)?;
+                instrs.push(Instruction::SimpleAssignment(
+                    prog.new_instr_id(),
+                    dest_var.to_owned(),
+                    dest,
+                ));
+                return Ok((instrs, Src::Var(dest_var)));
+            }
             Ok((instrs, dest))
         }
         Expression::ExpressionList(_, _) => {
-- 
2.43.0


From 38cdd441da75190dc29a8739927d945165a278a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:57 +0000
Subject: [PATCH 64/67] fix: include a header where its #include is

---
 src/preprocessor.rs | 110 +++++++++++++++-----------------------------
 1 file changed, 37 insertions(+), 73 deletions(-)

diff --git a/src/preprocessor.rs b/src/preprocessor.rs
index e299703..7cd2222 100644
--- a/src/preprocessor.rs
+++ b/src/preprocessor.rs
@@ -12,11 +12,7 @@ use regex::Regex;
 pub fn preprocess(filepath: &Path) -> Result<String, PreprocessorError> {
     info!("Running preprocessor");
 
-    let (mut file_contents, includes) = remove_include_directives(filepath)?;
-
-    info!("Includes: {:?}", includes);
-
-    file_contents = include_headers(file_contents, includes, filepath)?;
+    let file_contents = inline_includes(filepath, filepath, &mut Vec::new())?;
 
     info!("Included headers:\n{file_contents}");
 
@@ -30,9 +26,12 @@ pub fn preprocess(filepath: &Path) -> Result<String, PreprocessorError> {
     Ok(processed_source)
 }
 
-fn remove_include_directives(filepath: &Path) -> Result<(String, Vec<String>), PreprocessorError> {
-    // store the includes we remove from the file
-    let mut includes: Vec<String> = Vec::new();
+/// Reads the file, with each #include directive replaced by the contents of the header
+fn inline_includes(
+    filepath: &Path,
+    source_filepath: &Path,
+    open_headers: &mut Vec<String>,
+) -> Result<String, PreprocessorError> {
     let mut output = String::new();
 
     match read_lines(filepath) {
@@ -41,13 +40,13 @@ fn remove_include_directives(filepath: &Path) -> Result<(String, Vec<String>), P
                 let l = line.map_err(PreprocessorError::IoError)?;
                 // check if line is a #include directive
                 if let Some(include) = check_for_include(&l) {
-                    includes.push(include);
+                    output.push_str(&load_header(include, source_filepath, open_headers)?);
                     continue;
                 }
                 output.push_str(&l);
                 output.push('\n');
             }
-            Ok((output, includes))
+            Ok(output)
         }
         Err(e) => match e.kind() {
             ErrorKind::NotFound => Err(PreprocessorError::FileNotFound(
@@ -62,7 +61,7 @@ fn remove_include_directives(filepath: &Path) -> Result<(String, Vec<String>), P
 /// If so, returns the name of the header file included, or None otherwise
 fn check_for_include(line: &str) -> Option<String> {
     lazy_static! {
-        static ref INCLUDE_RE: Regex = Regex::new(r#"^#include\s[<"](.*)[>"]"#).unwrap();
+        static ref INCLUDE_RE: Regex = Regex::new(r#"^\s*#\s*include\s*[<"]([^>"]*)[>"]"#).unwrap();
     }
 
     if let Some(captures) = INCLUDE_RE.captures(line) {
@@ -81,72 +80,37 @@ fn read_lines(filepath: &Path) -> io::Result<io::Lines<io::BufReader<fs::File>>>
     Ok(io::BufReader::new(file).lines())
 }
 
-fn include_headers(
-    mut source: String,
-    mut includes: Vec<String>,
-    filepath: &Path,
+fn load_header(
+    header_name: String,
+    source_filepath: &Path,
+    open_headers: &mut Vec<String>,
 ) -> Result<String, PreprocessorError> {
-    loop {
-        if includes.is_empty() {
-            break;
-        }
-        let include_name = includes.pop().unwrap();
-        let header =
-            if include_name == format!("{}.h", filepath.file_stem().unwrap().to_str().unwrap()) {
-                match load_program_header(filepath, &include_name) {
-                    Err(e) => {
-                        return match e {
-                            PreprocessorError::FileNotFound(f) => {
-                                Err(PreprocessorError::UnsupportedHeaderInclude(f))
-                            }
-                            _ => Err(e),
-                        }
-                    }
-                    Ok(s) => s,
-                }
-            } else {
-                match load_header_file(&include_name) {
-                    Err(e) => {
-                        return match e {
-                            PreprocessorError::FileNotFound(f) => {
-                                Err(PreprocessorError::UnsupportedHeaderInclude(f))
-                            }
-                            _ => Err(e),
-                        }
-                    }
-                    Ok(s) => s,
-                }
-            };
-        let (header_source, mut new_includes) = header;
-        // a header that includes itself is already being included
-        new_includes.retain(|new_include| *new_include != include_name);
-        info!("New includes: {:?}", new_includes);
-        includes.append(&mut new_includes);
-        source.insert(0, '\n');
-        source.insert_str(0, header_source.as_str())
+    // a header that includes itself, directly or through others, is already being included
+    if open_headers.contains(&header_name) {
+        return Ok(String::new());
     }
-    Ok(source)
-}
-
-fn load_program_header(
-    source_filepath: &Path,
-    header_name: &String,
-) -> Result<(String, Vec<String>), PreprocessorError> {
-    let path = match source_filepath.parent() {
-        Some(p) => {
-            let mut path = PathBuf::from(p);
-            path.push(header_name);
-            path
-        }
-        None => PathBuf::from(&header_name),
-    };
-    remove_include_directives(path.as_path())
+    info!("Including header: {header_name}");
+    let path =
+        if header_name == format!("{}.h", source_filepath.file_stem().unwrap().to_str().unwrap()) {
+            program_header_path(source_filepath, &header_name)
+        } else {
+            PathBuf::from("headers").join(&header_name)
+        };
+    open_headers.push(header_name);
+    let header_source =
+        inline_includes(&path, source_filepath, open_headers).map_err(|e| match e {
+            PreprocessorError::FileNotFound(f) => PreprocessorError::UnsupportedHeaderInclude(f),
+            e => e,
+        })?;
+    open_headers.pop();
+    Ok(header_source)
 }
 
-fn load_header_file(header_name: &String) -> Result<(String, Vec<String>), PreprocessorError> {
-    let mut path = PathBuf::from("headers");
-    path.push(header_name);
-    remove_include_directives(path.as_path())
+fn program_header_path(source_filepath: &Path, header_name: &str) -> PathBuf {
+    match source_filepath.parent() {
+        Some(p) => p.join(header_name),
+        None => PathBuf::from(header_name),
+    }
 }
 
 /// Runs the C preprocessor over the given source.
-- 
2.43.0


From e7ea27074c0481434df7555262be8296d36eb184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:53 +0000
Subject: [PATCH 65/67] fix: a typedef name can be a single letter

---
 src/front_end/lexer.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index 687f9a2..0a2f50e 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -556,14 +556,9 @@ impl Fsm {
                     token: None,
                 }),
                 // identifiers only start with letters or underscore, not number
-                c if c.is_ascii_alphabetic() => Some(Fsm {
-                    state: State::Identifier,
-                    token: Some(Token::Identifier(c.to_string())),
-                }),
-                '_' => Some(Fsm {
-                    state: State::Identifier,
-                    token: Some(Token::Identifier("_".to_owned())),
-                }),
+                c if c.is_ascii_alphabetic() || c == '_' => {
+                    Some(lex_identifier(c.to_string(), typedef_names))
+                }
                 '0' => Some(Fsm {
                     state: State::Oct1,
                     token: Some(Token::OctalConstant("0".to_owned())),
-- 
2.43.0


From e167f6faf28916ac0b385cc3c158344c5241f3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:53 +0000
Subject: [PATCH 66/67] fix: string.h and stddef.h can be included together

---
 headers/string.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/headers/string.h b/headers/string.h
index 7bb19d1..5239769 100644
--- a/headers/string.h
+++ b/headers/string.h
@@ -1,9 +1,7 @@
 #ifndef _STRING_H
 #define _STRING_H
 
-#define NULL ((void*)0)
-
-typedef int size_t;
+#include <stddef.h>
 
 size_t strlen(const char *s);
 
-- 
2.43.0


From 54c678d66223adec50d667793a9ebb75e361f131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:44 +0000
Subject: [PATCH 67/67] fix: don't include the headers named in comments

---
 src/preprocessor.rs | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor.rs b/src/preprocessor.rs
index 7cd2222..9f7e1bb 100644
--- a/src/preprocessor.rs
+++ b/src/preprocessor.rs
@@ -36,13 +36,19 @@ fn inline_includes(
 
     match read_lines(filepath) {
         Ok(lines) => {
+            let mut in_comment = false;
             for line in lines {
                 let l = line.map_err(PreprocessorError::IoError)?;
                 // check if line is a #include directive
-                if let Some(include) = check_for_include(&l) {
+                if let (false, Some(include)) = (in_comment, check_for_include(&l)) {
                     output.push_str(&load_header(include, source_filepath, open_headers)?);
+                    in_comment = ends_in_comment(&l, in_comment);
+                    if in_comment {
+                        output.push_str("/*\n");
+                    }
                     continue;
                 }
+                in_comment = ends_in_comment(&l, in_comment);
                 output.push_str(&l);
                 output.push('\n');
             }
@@ -74,6 +80,35 @@ fn check_for_include(line: &str) -> Option<String> {
     None
 }
 
+/// Checks if a multi-line comment is open at the end of the given line
+fn ends_in_comment(line: &str, mut in_comment: bool) -> bool {
+    let mut quote = None;
+    let mut chars = line.chars().peekable();
+    while let Some(c) = chars.next() {
+        let next = chars.peek().copied();
+        if in_comment {
+            if c == '*' && next == Some('/') {
+                in_comment = false;
+                chars.next();
+            }
+        } else if quote.is_some() {
+            if c == '\\' {
+                chars.next();
+            } else if Some(c) == quote {
+                quote = None;
+            }
+        } else if c == '"' || c == '\'' {
+            quote = Some(c);
+        } else if c == '/' && next == Some('/') {
+            return false;
+        } else if c == '/' && next == Some('*') {
+            in_comment = true;
+            chars.next();
+        }
+    }
+    in_comment
+}
+
 /// Returns an iterator over the lines of the file
 fn read_lines(filepath: &Path) -> io::Result<io::Lines<io::BufReader<fs::File>>> {
     let file = fs::File::open(filepath)?;
-- 
2.43.0

