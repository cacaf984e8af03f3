From 8066aa7a78148b70e509257f41afff7c19c7c8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:19 +0000
Subject: [PATCH 01/14] fix: make the ISA simulator return errors for
 out-of-range addresses instead of panicking

---
 sim/src/isa.rs | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/sim/src/isa.rs b/sim/src/isa.rs
index cb8d718..7009ba1 100644
--- a/sim/src/isa.rs
+++ b/sim/src/isa.rs
@@ -229,9 +229,23 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
         Ok(reg as usize)
     }
 
+    /// Compute the address following an instruction of `n` bytes at `pc`, ensuring
+    /// that the whole instruction lies in the memory.
     #[inline]
     fn checked_add_pc(pc: usize, n: usize) -> anyhow::Result<usize> {
-        pc.checked_add(n).ok_or(anyhow::anyhow!("pc overflow"))
+        match pc.checked_add(n) {
+            Some(nex_pc) if nex_pc <= BIN_SIZE => Ok(nex_pc),
+            _ => anyhow::bail!("instruction exceeds the memory: {:#x}", pc),
+        }
+    }
+
+    /// Ensure that the 8-byte word at the address lies in the memory.
+    #[inline]
+    fn ensure_addr(addr: u64) -> anyhow::Result<usize> {
+        if addr > (BIN_SIZE - 8) as u64 {
+            anyhow::bail!("invalid memory address: {:#x}", addr);
+        }
+        Ok(addr as usize)
     }
 
     #[inline]
@@ -256,6 +270,9 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
     let mut n_insts = 0;
 
     loop {
+        if pc >= BIN_SIZE {
+            anyhow::bail!("invalid program counter: {:#x}", pc);
+        }
         n_insts += 1;
         let icode = bin[pc] >> 4;
         let ifun = bin[pc] & 0xf;
@@ -348,10 +365,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 let rb = ensure_reg(bin[pc + 1] & 0xf)?;
                 let v = get_u64(&bin[(pc + 2)..(pc + 10)]);
 
-                let addr = (reg_file[rb] as i64 + v as i64) as usize;
-                if addr >= BIN_SIZE {
-                    anyhow::bail!("invalid memory address: {:#x}", addr);
-                }
+                let addr = ensure_addr(reg_file[rb].wrapping_add(v))?;
                 put_u64(&mut bin[addr..(addr + 8)], reg_file[ra]);
 
                 nex_pc
@@ -365,10 +379,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 let rb = ensure_reg(bin[pc + 1] & 0xf)?;
                 let v = get_u64(&bin[(pc + 2)..(pc + 10)]);
 
-                let addr = (reg_file[rb] as i64 + v as i64) as usize;
-                if addr >= BIN_SIZE {
-                    anyhow::bail!("invalid memory address: {:#x}", addr);
-                }
+                let addr = ensure_addr(reg_file[rb].wrapping_add(v))?;
                 reg_file[ra] = get_u64(&bin[addr..(addr + 8)]);
 
                 nex_pc
@@ -402,6 +413,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 }
             }
             inst_code::CALL => {
+                let nex_pc = checked_add_pc(pc, 9)?;
                 check_ifun_zero(inst_code::CALL, ifun)?;
 
                 let v = get_u64(&bin[(pc + 1)..(pc + 9)]);
@@ -409,10 +421,8 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
 
                 let rsp = get_rsp(&mut reg_file);
                 *rsp = rsp.checked_sub(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
-                put_u64(
-                    &mut bin[(*rsp as usize)..(*rsp as usize + 8)],
-                    pc as u64 + 9,
-                );
+                let addr = ensure_addr(*rsp)?;
+                put_u64(&mut bin[addr..(addr + 8)], nex_pc as u64);
 
                 v as usize
             }
@@ -421,7 +431,8 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 printi!(inst, end);
 
                 let rsp = get_rsp(&mut reg_file);
-                let v = get_u64(&bin[(*rsp as usize)..(*rsp as usize + 8)]);
+                let addr = ensure_addr(*rsp)?;
+                let v = get_u64(&bin[addr..(addr + 8)]);
 
                 *rsp = rsp.checked_add(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
 
@@ -437,7 +448,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
 
                 let rsp = get_rsp(&mut reg_file);
                 *rsp = rsp.checked_sub(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
-                let new_rsp = *rsp as usize;
+                let new_rsp = ensure_addr(*rsp)?;
                 put_u64(&mut bin[new_rsp..(new_rsp + 8)], va);
 
                 nex_pc
@@ -450,7 +461,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 let ra = ensure_reg(bin[pc + 1] >> 4)?;
 
                 let rsp = get_rsp(&mut reg_file);
-                let old_rsp = *rsp as usize;
+                let old_rsp = ensure_addr(*rsp)?;
                 *rsp = rsp.checked_add(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
                 reg_file[ra] = get_u64(&bin[old_rsp..(old_rsp + 8)]);
 
-- 
2.43.0


From 9cefc7da49bec0871ae3c07a19dcc7f45ba459c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 02/14] fix: make the ISA simulator reject invalid conditions
 and register fields

---
 sim/src/isa.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/sim/src/isa.rs b/sim/src/isa.rs
index 7009ba1..dda60d2 100644
--- a/sim/src/isa.rs
+++ b/sim/src/isa.rs
@@ -256,6 +256,22 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
         Ok(())
     }
 
+    #[inline]
+    fn check_cond(inst: u8, ifun: u8) -> anyhow::Result<()> {
+        if ifun > cond_fn::G {
+            anyhow::bail!("invalid ifun for {}: {:#x}", inst_code::name_of(inst), ifun);
+        }
+        Ok(())
+    }
+
+    #[inline]
+    fn check_reg_none(reg: u8) -> anyhow::Result<()> {
+        if reg != reg_code::RNONE {
+            anyhow::bail!("invalid register code: {:#x}", reg);
+        }
+        Ok(())
+    }
+
     // Condition code register
     let mut reg_cc = ConditionCode::default();
     let mut reg_file = [0u64; 16];
@@ -331,6 +347,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
             }
             inst_code::CMOVX => {
                 let nex_pc = checked_add_pc(pc, 2)?;
+                check_cond(inst_code::CMOVX, ifun)?;
                 let ra = ensure_reg(bin[pc + 1] >> 4)?;
                 let rb = ensure_reg(bin[pc + 1] & 0xf)?;
                 printi!(inst, reg, end);
@@ -403,6 +420,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
             }
             inst_code::JX => {
                 let nex_pc = checked_add_pc(pc, 9)?;
+                check_cond(inst_code::JX, ifun)?;
                 let v = get_u64(&bin[(pc + 1)..(pc + 9)]);
                 printi!(inst, v, end);
 
@@ -441,6 +459,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
             inst_code::PUSHQ => {
                 let nex_pc = checked_add_pc(pc, 2)?;
                 check_ifun_zero(inst_code::PUSHQ, ifun)?;
+                check_reg_none(bin[pc + 1] & 0xf)?;
                 printi!(inst, reg, end);
 
                 let ra = ensure_reg(bin[pc + 1] >> 4)?;
@@ -456,6 +475,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
             inst_code::POPQ => {
                 let nex_pc = checked_add_pc(pc, 2)?;
                 check_ifun_zero(inst_code::POPQ, ifun)?;
+                check_reg_none(bin[pc + 1] & 0xf)?;
                 printi!(inst, reg, end);
 
                 let ra = ensure_reg(bin[pc + 1] >> 4)?;
-- 
2.43.0


From adbcdb41a55a669e497d9e0486ff19a0ceecf53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:41 +0000
Subject: [PATCH 03/14] fix: recompute every instruction memory output on each
 fetch and handle any fetch address

---
 sim/src/architectures/hardware_pipe.rs | 7 +++++--
 sim/src/architectures/hardware_seq.rs  | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/sim/src/architectures/hardware_pipe.rs b/sim/src/architectures/hardware_pipe.rs
index 980fc67..3766eb8 100644
--- a/sim/src/architectures/hardware_pipe.rs
+++ b/sim/src/architectures/hardware_pipe.rs
@@ -34,8 +34,11 @@ define_units! {
         binary: MemData
     } {
         let binary: &[u8; MEM_SIZE] = &binary.read();
-        if pc + 10 > MEM_SIZE as u64 {
-            *error = true;
+        *error = pc > MEM_SIZE as u64 - 10;
+        if *error {
+            *icode = inst_code::NOP;
+            *ifun = 0;
+            *align = [0; 9];
         } else {
             let pc = pc as usize;
             let icode_ifun = binary[pc];
diff --git a/sim/src/architectures/hardware_seq.rs b/sim/src/architectures/hardware_seq.rs
index 47467d6..8371b78 100644
--- a/sim/src/architectures/hardware_seq.rs
+++ b/sim/src/architectures/hardware_seq.rs
@@ -31,8 +31,11 @@ define_units! {
         binary: MemData
     } {
         let binary: &[u8; MEM_SIZE] = &binary.read();
-        if pc + 10 > MEM_SIZE as u64 {
-            *error = true;
+        *error = pc > MEM_SIZE as u64 - 10;
+        if *error {
+            *icode = inst_code::NOP;
+            *ifun = 0;
+            *align = [0; 9];
         } else {
             let pc = pc as usize;
             let icode_ifun = binary[pc];
-- 
2.43.0


From ca356947d6038af201f63d279f7b8426f2861d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:42 +0000
Subject: [PATCH 04/14] fix: report data memory errors exactly for requested
 accesses outside the memory

---
 sim/src/architectures/hardware_pipe.rs | 8 +++-----
 sim/src/architectures/hardware_seq.rs  | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/sim/src/architectures/hardware_pipe.rs b/sim/src/architectures/hardware_pipe.rs
index 3766eb8..e58e15f 100644
--- a/sim/src/architectures/hardware_pipe.rs
+++ b/sim/src/architectures/hardware_pipe.rs
@@ -168,17 +168,15 @@ define_units! {
         )
         binary: MemData
     } {
-        if addr + 8 >= MEM_SIZE as u64 {
-            *dataout = 0;
-            *error = true;
+        *dataout = 0;
+        *error = (read || write) && addr > MEM_SIZE as u64 - 8;
+        if *error {
             return
         }
-        *error = false;
         if write {
             tracing::info!("write memory: addr = {:#x}, datain = {:#x}", addr, datain);
             let section: &mut [u8] = &mut binary.write()[(addr as usize)..];
             put_u64(section, datain);
-            *dataout = 0;
         } else if read {
             *dataout = get_u64(&binary.read()[(addr as usize)..]);
         }
diff --git a/sim/src/architectures/hardware_seq.rs b/sim/src/architectures/hardware_seq.rs
index 8371b78..7cf194d 100644
--- a/sim/src/architectures/hardware_seq.rs
+++ b/sim/src/architectures/hardware_seq.rs
@@ -155,17 +155,15 @@ define_units! {
         )
         binary: MemData
     } {
-        if addr + 8 >= MEM_SIZE as u64 {
-            *dataout = 0;
-            *error = true;
+        *dataout = 0;
+        *error = (read || write) && addr > MEM_SIZE as u64 - 8;
+        if *error {
             return
         }
-        *error = false;
         if write {
             tracing::info!("write memory: addr = {:#x}, datain = {:#x}", addr, datain);
             let section: &mut [u8] = &mut binary.write()[(addr as usize)..];
             put_u64(section, datain);
-            *dataout = 0;
         } else if read {
             *dataout = get_u64(&binary.read()[(addr as usize)..]);
         }
-- 
2.43.0


From ee689bac9f49e4fe25222e466d54a4779ab04bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:42 +0000
Subject: [PATCH 05/14] fix: let the PC incrementer wrap instead of overflowing

---
 sim/src/architectures/hardware_pipe.rs | 6 +++---
 sim/src/architectures/hardware_seq.rs  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sim/src/architectures/hardware_pipe.rs b/sim/src/architectures/hardware_pipe.rs
index e58e15f..deae303 100644
--- a/sim/src/architectures/hardware_pipe.rs
+++ b/sim/src/architectures/hardware_pipe.rs
@@ -83,9 +83,9 @@ define_units! {
             new_pc: u64
         )
     } {
-        let mut x = old_pc + 1;
-        if need_regids { x += 1; }
-        if need_valC { x += 8; }
+        let mut x = old_pc.wrapping_add(1);
+        if need_regids { x = x.wrapping_add(1); }
+        if need_valC { x = x.wrapping_add(8); }
         *new_pc = x;
     }
 
diff --git a/sim/src/architectures/hardware_seq.rs b/sim/src/architectures/hardware_seq.rs
index 7cf194d..15cb5c2 100644
--- a/sim/src/architectures/hardware_seq.rs
+++ b/sim/src/architectures/hardware_seq.rs
@@ -80,9 +80,9 @@ define_units! {
             new_pc: u64
         )
     } {
-        let mut x = old_pc + 1;
-        if need_regids { x += 1; }
-        if need_valC { x += 8; }
+        let mut x = old_pc.wrapping_add(1);
+        if need_regids { x = x.wrapping_add(1); }
+        if need_valC { x = x.wrapping_add(8); }
         *new_pc = x;
     }
 
-- 
2.43.0


From 3c073a22a4e8818978ad71fa293861f30b7a29ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 06/14] fix: compute the propagation order independently of
 hash iteration order

---
 sim/src/framework/propagate.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sim/src/framework/propagate.rs b/sim/src/framework/propagate.rs
index 99dc5e1..8f7d7a9 100644
--- a/sim/src/framework/propagate.rs
+++ b/sim/src/framework/propagate.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{HashMap, HashSet, VecDeque},
+    collections::{BTreeSet, HashMap, HashSet, VecDeque},
     fmt::{Debug, Write},
     hash::Hash,
 };
@@ -95,7 +95,8 @@ pub struct PropOrderBuilder {
     runnable_nodes_set: HashSet<String>,
     /// Runnable nodes includes units and intermediate signals.
     runnable_nodes: NameList,
-    nodes: HashSet<String>,
+    /// Ordered, so that the propagation order is the same in every run.
+    nodes: BTreeSet<String>,
     edges: Vec<(String, String)>,
 }
 
-- 
2.43.0


From f7a388d336bdb8f9ee8671422d51db2700ad353b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:14 +0000
Subject: [PATCH 07/14] fix: parse negative and full-range numeric literals

---
 sim/src/utils.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sim/src/utils.rs b/sim/src/utils.rs
index 6d90d67..2e579bf 100644
--- a/sim/src/utils.rs
+++ b/sim/src/utils.rs
@@ -14,14 +14,12 @@ pub const B: Style = Style::new().bold();
 /// For decimal number, it should be a valid i64.
 /// For hexadecimal number, it should be prefixed with "0x" and in range of u64.
 pub fn parse_literal(s: &str) -> Option<u64> {
-    let (sign, s) = s.strip_suffix("-").map(|s| (-1, s)).unwrap_or((1, s));
     if let Ok(r) = s.parse::<i64>() {
-        return Some((r * sign) as u64);
+        return Some(r as u64);
     }
-    if let Ok(r) = u64::from_str_radix(s.strip_prefix("0x")?, 16) {
-        return Some((r as i64 * sign) as u64);
-    }
-    None
+    let (negative, s) = s.strip_prefix('-').map_or((false, s), |s| (true, s));
+    let r = u64::from_str_radix(s.strip_prefix("0x")?, 16).ok()?;
+    Some(if negative { r.wrapping_neg() } else { r })
 }
 
 /// Get 64-bit unsigned integer value in little endian order.
-- 
2.43.0


From 91ee7cd538c734d029bdcceffebdc6a26f432ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:14 +0000
Subject: [PATCH 08/14] fix: take the operation from the mnemonic, not from the
 operands

---
 sim/src/asm/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sim/src/asm/mod.rs b/sim/src/asm/mod.rs
index 78c100d..13cf9ea 100644
--- a/sim/src/asm/mod.rs
+++ b/sim/src/asm/mod.rs
@@ -121,13 +121,15 @@ impl From<&str> for CondFn {
 
 impl OpFn {
     fn from_instname(value: &str) -> Self {
-        if value.contains("andq") {
+        // the mnemonic only: operands can be labels of any name
+        let value = value.strip_prefix('i').unwrap_or(value);
+        if value.starts_with("andq") {
             Self::AND
-        } else if value.contains("addq") {
+        } else if value.starts_with("addq") {
             Self::ADD
-        } else if value.contains("subq") {
+        } else if value.starts_with("subq") {
             Self::SUB
-        } else if value.contains("xorq") {
+        } else if value.starts_with("xorq") {
             Self::XOR
         } else {
             panic!("invalid")
-- 
2.43.0


From f4c440da338bcc24b79741161595cd1a32a4a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 09/14] fix: report out-of-range literals and addresses as
 assembly errors instead of panicking

---
 sim/src/asm/mod.rs | 65 +++++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 27 deletions(-)

diff --git a/sim/src/asm/mod.rs b/sim/src/asm/mod.rs
index 13cf9ea..7de7b7d 100644
--- a/sim/src/asm/mod.rs
+++ b/sim/src/asm/mod.rs
@@ -5,7 +5,7 @@ use pest_derive::Parser;
 
 use crate::{
     isa::{self, reg_code},
-    object::{LineInfo, Object, ObjectExt},
+    object::{LineInfo, Object, ObjectExt, BIN_SIZE},
     utils, SourceInfo,
 };
 
@@ -137,23 +137,29 @@ impl OpFn {
     }
 }
 
+/// Parse a number literal of the source text
+fn parse_number(s: &str) -> Result<u64> {
+    utils::parse_literal(s).with_context(|| format!("number literal out of range: {}", s))
+}
+
 /// Address mode expression with optional displacement
 #[derive(Debug, Clone, Copy)]
 pub struct Addr(pub Option<u64>, pub Reg);
 
-impl From<ParseInput<'_>> for Addr {
-    fn from(value: ParseInput<'_>) -> Self {
+impl TryFrom<ParseInput<'_>> for Addr {
+    type Error = anyhow::Error;
+
+    fn try_from(value: ParseInput<'_>) -> Result<Self> {
         let mut it = value.into_iter();
         let num_or_reg = it.next().expect("expect number or register");
         if num_or_reg.as_rule() == Rule::reg {
             // no displacement
             let reg = Reg::from(num_or_reg.pair);
-            Self(None, reg)
+            Ok(Self(None, reg))
         } else {
-            let s = num_or_reg.as_str();
-            let num = utils::parse_literal(s).expect("fail to parse number literal") as i64;
+            let num = parse_number(num_or_reg.as_str())?;
             let reg = it.next_reg();
-            Self(Some(num as u64), reg)
+            Ok(Self(Some(num), reg))
         }
     }
 }
@@ -165,15 +171,16 @@ pub enum Imm {
     Label(String),
 }
 
-impl From<ParseInput<'_>> for Imm {
-    fn from(value: ParseInput<'_>) -> Self {
+impl TryFrom<ParseInput<'_>> for Imm {
+    type Error = anyhow::Error;
+
+    fn try_from(value: ParseInput<'_>) -> Result<Self> {
         if value.as_rule() == Rule::label {
-            Self::Label(value.as_str().to_string())
+            Ok(Self::Label(value.as_str().to_string()))
         } else {
             let s = value.as_str();
             let s = s.strip_prefix('$').unwrap_or(s);
-            let num = utils::parse_literal(s).expect("fail to parse number literal") as i64;
-            Self::Num(num)
+            Ok(Self::Num(parse_number(s)? as i64))
         }
     }
 }
@@ -299,13 +306,13 @@ impl<'a> ParseInputs<'a> {
     }
 
     /// Parse next token as address
-    fn next_addr(&mut self) -> Addr {
-        Addr::from(self.next().expect("expect address token"))
+    fn next_addr(&mut self) -> Result<Addr> {
+        Addr::try_from(self.next().expect("expect address token"))
     }
 
     /// Parse next token as immediate
-    fn next_imm(&mut self) -> Imm {
-        Imm::from(self.next().expect("expect immediate number token"))
+    fn next_imm(&mut self) -> Result<Imm> {
+        Imm::try_from(self.next().expect("expect immediate number token"))
     }
 }
 
@@ -368,19 +375,19 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                     cur_addr += 2
                 }
                 Rule::i_mrmovq => {
-                    let addr = it.next_addr();
+                    let addr = it.next_addr()?;
                     let reg = it.next_reg();
                     src_info.inst = Some(Inst::MRMOVQ(addr, reg));
                     cur_addr += 10
                 }
                 Rule::i_rmmovq => {
                     let reg = it.next_reg();
-                    let addr = it.next_addr();
+                    let addr = it.next_addr()?;
                     src_info.inst = Some(Inst::RMMOVQ(reg, addr));
                     cur_addr += 10
                 }
                 Rule::i_irmovq => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     let reg = it.next_reg();
                     src_info.inst = Some(Inst::IRMOVQ(reg, imm));
                     cur_addr += 10
@@ -393,7 +400,7 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                     cur_addr += 2
                 }
                 Rule::i_iopq => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     let reg = it.next_reg();
                     let op_fn = OpFn::from_instname(tok2.as_str());
                     src_info.inst = Some(Inst::IOPQ(op_fn, imm, reg));
@@ -401,12 +408,12 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                 }
                 Rule::i_jx => {
                     let cond_fn = CondFn::from(it.next_str());
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     src_info.inst = Some(Inst::JX(cond_fn, imm));
                     cur_addr += 9
                 }
                 Rule::i_call => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     src_info.inst = Some(Inst::CALL(imm));
                     cur_addr += 9
                 }
@@ -421,13 +428,12 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                     cur_addr += 2
                 }
                 Rule::d_pos => {
-                    let s = it.next_str();
-                    let num = utils::parse_literal(s).expect("fail to parse number literal");
+                    let num = parse_number(it.next_str())?;
                     cur_addr = num;
                     src_info.addr = Some(cur_addr) // override
                 }
                 Rule::d_data => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     if tok2.as_str().starts_with(".quad") {
                         src_info.data = Some((8, imm));
                         cur_addr += 8;
@@ -445,8 +451,7 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                     }
                 }
                 Rule::d_align => {
-                    let s = it.next_str();
-                    let num = utils::parse_literal(s).expect("fail to parse number literal");
+                    let num = parse_number(it.next_str())?;
                     anyhow::ensure!(num.count_ones() == 1, "invalid align number");
                     if cur_addr % num > 0 {
                         cur_addr = cur_addr / num * num + num // ceil
@@ -456,6 +461,12 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                 _ => unimplemented!(),
             }
         }
+        anyhow::ensure!(
+            cur_addr <= BIN_SIZE as u64,
+            "line {}: address {:#x} is out of memory",
+            src_infos.len() + 1,
+            cur_addr
+        );
         verbo!(&src_info);
         src_infos.push(src_info);
     }
-- 
2.43.0


From 6a81b80ac24e6cc819edf3c6f6e1cac8128296c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:47 +0000
Subject: [PATCH 10/14] fix: make yis report malformed listings as errors
 instead of panicking

---
 sim/src/bin/yis.rs | 5 ++++-
 sim/src/utils.rs   | 9 +++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/sim/src/bin/yis.rs b/sim/src/bin/yis.rs
index 08c569b..56370b5 100644
--- a/sim/src/bin/yis.rs
+++ b/sim/src/bin/yis.rs
@@ -41,7 +41,10 @@ fn main() -> Result<()> {
                 let value = line[sep + 1..index].trim();
                 if !value.is_empty() {
                     let bytes = utils::decode_hex(value)?;
-                    bin[addr..addr + bytes.len()].copy_from_slice(&bytes);
+                    bin.get_mut(addr..)
+                        .and_then(|b| b.get_mut(..bytes.len()))
+                        .with_context(|| format!("address {:#x} is out of memory", addr))?
+                        .copy_from_slice(&bytes);
                 }
             }
         }
diff --git a/sim/src/utils.rs b/sim/src/utils.rs
index 2e579bf..d30b66f 100644
--- a/sim/src/utils.rs
+++ b/sim/src/utils.rs
@@ -38,10 +38,15 @@ pub fn put_u64(binary: &mut [u8], val: u64) {
 }
 
 /// Decode hexadecimal string to byte array.
-pub fn decode_hex(s: &str) -> Result<Vec<u8>, std::num::ParseIntError> {
+pub fn decode_hex(s: &str) -> anyhow::Result<Vec<u8>> {
+    anyhow::ensure!(
+        s.len() % 2 == 0 && s.bytes().all(|b| b.is_ascii_hexdigit()),
+        "invalid hexadecimal bytes: {}",
+        s
+    );
     (0..s.len())
         .step_by(2)
-        .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
+        .map(|i| Ok(u8::from_str_radix(&s[i..i + 2], 16)?))
         .collect()
 }
 
-- 
2.43.0


From d486ae25b43ad167df8b03fa2cb9b919d8c02e4d Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:01:39 +0000
Subject: [PATCH 11/14] fix: answer any breakpoint line and variables reference
 instead of panicking

---
 debugger/src/server.rs | 10 +++++-----
 sim/src/object.rs      |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index d4e3b6c..0eba1f5 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -196,10 +196,10 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                     .iter()
                     .map(|b| {
                         let verified = true;
-                        let ln = inner
-                            .source_info
-                            .get_line(b.line)
-                            .expect("invalid breakpoint line");
+                        // lines outside of the source are reported as unverified
+                        let Some(ln) = inner.source_info.get_line(b.line) else {
+                            return types::Breakpoint::default();
+                        };
                         let message = ln.addr.map(|a| format!("addr: {:#x}", a));
 
                         let Some(addr) = ln.addr else {
@@ -319,7 +319,7 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                         .collect()
                 } else {
                     // scopes of each stage
-                    let index = args.variables_reference - 2;
+                    let index = args.variables_reference.saturating_sub(2);
                     if index < 0 {
                         bail!("invalid variables reference {index}");
                     }
diff --git a/sim/src/object.rs b/sim/src/object.rs
index 42c869a..ec48e5b 100644
--- a/sim/src/object.rs
+++ b/sim/src/object.rs
@@ -177,8 +177,8 @@ impl From<Vec<LineInfo>> for SourceInfo {
 impl SourceInfo {
     /// Get the line info by line number (start from 1)
     pub fn get_line(&self, line: i64) -> Option<&LineInfo> {
-        assert!(line > 0);
-        self.0.get(line as usize - 1)
+        let index = line.checked_sub(1)?;
+        self.0.get(usize::try_from(index).ok()?)
     }
 
     pub fn get_line_number_by_addr(&self, addr: u64) -> Option<i64> {
-- 
2.43.0


From 4bfd44ee8e4f61165ea58da28b8c1d2caf17f372 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:01:39 +0000
Subject: [PATCH 12/14] fix: refuse run and stack trace requests until a
 program is launched

---
 debugger/src/server.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index 0eba1f5..1735f8a 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -171,10 +171,14 @@ impl<R: Read, W: Write> DebugServer<R, W> {
             Command::Disconnect(_) => {
                 bail!("can not handle disconnect command in the handler");
             }
-            Command::ConfigurationDone => Ok((
-                req.success(ResponseBody::ConfigurationDone),
-                ServerStatus::RunProg(RunProgKind::InitialRun),
-            )),
+            Command::ConfigurationDone => {
+                // nothing to run before a program is launched
+                self.inner()?;
+                Ok((
+                    req.success(ResponseBody::ConfigurationDone),
+                    ServerStatus::RunProg(RunProgKind::InitialRun),
+                ))
+            }
             Command::SetBreakpoints(args) => {
                 let Some(breakpoints) = &args.breakpoints else {
                     bail!("missing breakpoints");
@@ -257,6 +261,7 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                 if args.thread_id != THREAD_ID {
                     bail!("invalid thread id");
                 }
+                let inner = self.inner()?;
                 // not the first frame, we don't have stack trace
                 if args.start_frame.unwrap_or_default() > 0 {
                     return Ok((
@@ -267,7 +272,6 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                         ServerStatus::ServeReq,
                     ));
                 }
-                let inner = self.inner()?;
                 // currently we don't have stack trace, thus we return a single frame
                 Ok((
                     req.success(ResponseBody::StackTrace(responses::StackTraceResponse {
@@ -349,6 +353,7 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                 if args.thread_id != THREAD_ID {
                     bail!("invalid thread id");
                 }
+                self.inner()?;
                 // we do not care about the granularity
                 Ok((
                     req.success(ResponseBody::Next),
@@ -359,6 +364,7 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                 if args.thread_id != THREAD_ID {
                     bail!("invalid thread id");
                 }
+                self.inner()?;
                 Ok((
                     req.success(ResponseBody::Continue(responses::ContinueResponse {
                         // we have exactly one thread
-- 
2.43.0


From 9355bf652c438b8def8dc6d45f7a8f3c75cd4101 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:01:39 +0000
Subject: [PATCH 13/14] fix: respond to disconnect and to requests sent before
 initialize

---
 debugger/src/server.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index 1735f8a..1fc1dd6 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -382,12 +382,21 @@ impl<R: Read, W: Write> DebugServer<R, W> {
     fn init(&mut self) -> anyhow::Result<()> {
         tracing::trace!("waiting for init request");
 
-        let req = match self.server.poll_request()? {
-            Some(req) => req,
-            None => bail!("no request"),
-        };
-        let Command::Initialize(_) = req.command else {
-            bail!("expected initialize command to be the first request");
+        let req = loop {
+            let req = match self.server.poll_request()? {
+                Some(req) => req,
+                None => bail!("no request"),
+            };
+            match req.command {
+                Command::Initialize(_) => break req,
+                Command::Disconnect(_) => {
+                    self.server.respond(req.ack()?)?;
+                    bail!("disconnect command received");
+                }
+                _ => self
+                    .server
+                    .respond(req.error("expected initialize command to be the first request"))?,
+            }
         };
         let rsp = req.success(ResponseBody::Initialize(types::Capabilities {
             supports_configuration_done_request: Some(true),
@@ -410,6 +419,7 @@ impl<R: Read, W: Write> DebugServer<R, W> {
         };
 
         if let Command::Disconnect(_) = req.command {
+            self.server.respond(req.ack()?)?;
             bail!("disconnect command received");
         }
 
-- 
2.43.0


From 0a380c23d08bea73fa3368a15f844b8223b153e8 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:01:39 +0000
Subject: [PATCH 14/14] fix: stop at breakpoints on any line at the current
 address

---
 debugger/src/server.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index 1fc1dd6..f87759f 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -496,12 +496,11 @@ impl<R: Read, W: Write> DebugServer<R, W> {
             let pc = sim.program_counter();
 
             if let Some(bp) = self.breakpoints.iter().find(|bp| {
-                let Some(bp_ln) = bp.line else { return false };
-                inner
-                    .source_info
-                    .get_line_number_by_addr(pc)
-                    .map(|ln| ln == bp_ln)
-                    .unwrap_or(false)
+                // several lines can have the same address (e.g. a label and the
+                // instruction after it)
+                bp.line
+                    .and_then(|ln| inner.source_info.get_line(ln))
+                    .is_some_and(|ln| ln.addr == Some(pc))
             }) {
                 let bp_id = bp.id.ok_or(anyhow::anyhow!("breakpoint id not set"))?;
                 tracing::trace!("hit breakpoint: line = {:?}", bp.line);
-- 
2.43.0

