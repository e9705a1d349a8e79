From 5b38c08455ed166cefb9fe9521a0e941f72a1629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:28 +0000
Subject: [PATCH 01/64] verification hooks: constructors and accessors under
 cfg(carron_verif)

---
 src/bus.rs             |  2 ++
 src/bus/clint.rs       |  3 ++
 src/bus/clint/verif.rs | 13 ++++++++
 src/bus/dram.rs        |  3 ++
 src/bus/dram/verif.rs  | 23 +++++++++++++
 src/bus/mrom.rs        |  3 ++
 src/bus/mrom/verif.rs  | 13 ++++++++
 src/bus/plic.rs        |  3 ++
 src/bus/plic/verif.rs  | 74 ++++++++++++++++++++++++++++++++++++++++++
 src/bus/uart.rs        |  2 ++
 src/bus/uart/verif.rs  | 34 +++++++++++++++++++
 src/bus/verif.rs       |  6 ++++
 src/cpu.rs             |  2 ++
 src/cpu/csr.rs         |  2 ++
 src/cpu/csr/verif.rs   | 43 ++++++++++++++++++++++++
 src/cpu/reg.rs         |  3 ++
 src/cpu/reg/verif.rs   | 12 +++++++
 src/cpu/verif.rs       | 61 ++++++++++++++++++++++++++++++++++
 src/lib.rs             |  2 ++
 19 files changed, 304 insertions(+)
 create mode 100644 src/bus/clint/verif.rs
 create mode 100644 src/bus/dram/verif.rs
 create mode 100644 src/bus/mrom/verif.rs
 create mode 100644 src/bus/plic/verif.rs
 create mode 100644 src/bus/uart/verif.rs
 create mode 100644 src/bus/verif.rs
 create mode 100644 src/cpu/csr/verif.rs
 create mode 100644 src/cpu/reg/verif.rs
 create mode 100644 src/cpu/verif.rs

diff --git a/src/bus.rs b/src/bus.rs
index ff67479..c612801 100644
--- a/src/bus.rs
+++ b/src/bus.rs
@@ -4,6 +4,8 @@ pub mod dram;
 mod mrom;
 mod plic;
 mod uart;
+#[cfg(carron_verif)]
+pub mod verif;
 
 use crate::{elfload, Arguments, Isa, TrapCause};
 use clint::Clint;
diff --git a/src/bus/clint.rs b/src/bus/clint.rs
index 152a4aa..4ef2800 100644
--- a/src/bus/clint.rs
+++ b/src/bus/clint.rs
@@ -1,3 +1,6 @@
+#[cfg(carron_verif)]
+mod verif;
+
 use super::Device;
 use crate::TrapCause;
 
diff --git a/src/bus/clint/verif.rs b/src/bus/clint/verif.rs
new file mode 100644
index 0000000..d6da070
--- /dev/null
+++ b/src/bus/clint/verif.rs
@@ -0,0 +1,13 @@
+//! Verification hooks (`--cfg carron_verif` only).
+use super::*;
+
+impl Clint {
+    pub fn verif_new(clint: Vec<u8>) -> Self {
+        let size = clint.len();
+        Clint {
+            clint,
+            base_addr: 0x0200_0000,
+            size,
+        }
+    }
+}
diff --git a/src/bus/dram.rs b/src/bus/dram.rs
index 4328fad..954ac35 100644
--- a/src/bus/dram.rs
+++ b/src/bus/dram.rs
@@ -1,3 +1,6 @@
+#[cfg(carron_verif)]
+mod verif;
+
 use memmap::Mmap;
 use std::fs::File;
 
diff --git a/src/bus/dram/verif.rs b/src/bus/dram/verif.rs
new file mode 100644
index 0000000..8f90721
--- /dev/null
+++ b/src/bus/dram/verif.rs
@@ -0,0 +1,23 @@
+//! Verification hooks (`--cfg carron_verif` only).
+use super::*;
+
+impl Dram {
+    pub fn verif_new(dram: Vec<u8>, base_addr: u64) -> Self {
+        let size = dram.len();
+        Dram {
+            dram,
+            base_addr,
+            size,
+            initrd_start: None,
+            initrd_end: None,
+        }
+    }
+
+    pub fn verif_raw(&self) -> &Vec<u8> {
+        &self.dram
+    }
+
+    pub fn verif_raw_mut(&mut self) -> &mut Vec<u8> {
+        &mut self.dram
+    }
+}
diff --git a/src/bus/mrom.rs b/src/bus/mrom.rs
index e655374..b9029da 100644
--- a/src/bus/mrom.rs
+++ b/src/bus/mrom.rs
@@ -1,3 +1,6 @@
+#[cfg(carron_verif)]
+mod verif;
+
 use super::Device;
 use crate::{Isa, TrapCause};
 
diff --git a/src/bus/mrom/verif.rs b/src/bus/mrom/verif.rs
new file mode 100644
index 0000000..793dbee
--- /dev/null
+++ b/src/bus/mrom/verif.rs
@@ -0,0 +1,13 @@
+//! Verification hooks (`--cfg carron_verif` only).
+use super::*;
+
+impl Mrom {
+    pub fn verif_new(mrom: Vec<u8>) -> Self {
+        let size = mrom.len();
+        Mrom {
+            mrom,
+            base_addr: 0x1000,
+            size,
+        }
+    }
+}
diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 2ee8439..61996b4 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -1,3 +1,6 @@
+#[cfg(carron_verif)]
+mod verif;
+
 use super::Device;
 use crate::cpu::PrivilegedLevel;
 use crate::TrapCause;
diff --git a/src/bus/plic/verif.rs b/src/bus/plic/verif.rs
new file mode 100644
index 0000000..2da9a29
--- /dev/null
+++ b/src/bus/plic/verif.rs
@@ -0,0 +1,74 @@
+//! Verification hooks (`--cfg carron_verif` only).
+use super::*;
+
+impl PlicContext {
+    pub fn verif_new(
+        priority_thresould: u8,
+        enable: Vec<u32>,
+        pending: Vec<u32>,
+        pending_priority: Vec<u8>,
+        claimed: Vec<u32>,
+        context_priv: PrivilegedLevel,
+    ) -> Self {
+        PlicContext {
+            priority_thresould,
+            enable,
+            pending,
+            pending_priority,
+            claimed,
+            context_priv,
+        }
+    }
+
+    pub fn verif_threshold(&self) -> u8 {
+        self.priority_thresould
+    }
+
+    pub fn verif_enable(&self) -> &Vec<u32> {
+        &self.enable
+    }
+
+    pub fn verif_pending(&self) -> &Vec<u32> {
+        &self.pending
+    }
+
+    pub fn verif_pending_priority(&self) -> &Vec<u8> {
+        &self.pending_priority
+    }
+
+    pub fn verif_claimed(&self) -> &Vec<u32> {
+        &self.claimed
+    }
+}
+
+impl Plic {
+    pub fn verif_new(
+        priority: Vec<u8>,
+        level: Vec<u32>,
+        contexts: Vec<PlicContext>,
+        mip_mask: u64,
+        mip_value: u64,
+    ) -> Self {
+        Plic {
+            priority,
+            level,
+            contexts,
+            mip_mask,
+            mip_value,
+            base_addr: 0x0c00_0000,
+            size: PLIC_SIZE,
+        }
+    }
+
+    pub fn verif_priority(&self) -> &Vec<u8> {
+        &self.priority
+    }
+
+    pub fn verif_level(&self) -> &Vec<u32> {
+        &self.level
+    }
+
+    pub fn verif_contexts(&self) -> &Vec<PlicContext> {
+        &self.contexts
+    }
+}
diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 8f6aa23..c0cd573 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -1,4 +1,6 @@
 mod io;
+#[cfg(carron_verif)]
+mod verif;
 
 use super::Device;
 use crate::bus::Plic;
diff --git a/src/bus/uart/verif.rs b/src/bus/uart/verif.rs
new file mode 100644
index 0000000..f22fda8
--- /dev/null
+++ b/src/bus/uart/verif.rs
@@ -0,0 +1,34 @@
+//! Verification hooks (`--cfg carron_verif` only).
+use super::*;
+
+impl Uart {
+    /// A UART whose host input is `stdin_channel` (no reader thread is started).
+    pub fn verif_new(
+        uart: Vec<u8>,
+        dll: u8,
+        dlm: u8,
+        backoff_counter: u64,
+        rx_queue: VecDeque<u8>,
+        stdin_channel: mpsc::Receiver<String>,
+    ) -> Self {
+        let size = uart.len();
+        Uart {
+            uart,
+            dll,
+            dlm,
+            backoff_counter,
+            base_addr: 0x1000_0000,
+            size,
+            rx_queue,
+            stdin_channel,
+        }
+    }
+
+    pub fn verif_dll_dlm(&self) -> (u8, u8) {
+        (self.dll, self.dlm)
+    }
+
+    pub fn verif_rx_queue(&self) -> &VecDeque<u8> {
+        &self.rx_queue
+    }
+}
diff --git a/src/bus/verif.rs b/src/bus/verif.rs
new file mode 100644
index 0000000..deba515
--- /dev/null
+++ b/src/bus/verif.rs
@@ -0,0 +1,6 @@
+//! Verification hooks (`--cfg carron_verif` only): names of the private device modules.
+pub use super::clint::Clint;
+pub use super::dram::Dram;
+pub use super::mrom::Mrom;
+pub use super::plic::{Plic, PlicContext};
+pub use super::uart::Uart;
diff --git a/src/cpu.rs b/src/cpu.rs
index 1c7ce89..88bc915 100644
--- a/src/cpu.rs
+++ b/src/cpu.rs
@@ -6,6 +6,8 @@ mod instruction;
 mod mmu;
 mod reg;
 mod trap;
+#[cfg(carron_verif)]
+pub mod verif;
 
 use crate::{bus, elfload, log, Arguments, Isa};
 use csr::{CSRname, Xstatus};
diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index a77c9d8..8613ea1 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -1,4 +1,6 @@
 mod breakpoint;
+#[cfg(carron_verif)]
+mod verif;
 
 use super::{CrossIsaUtil, PrivilegedLevel, TrapCause};
 use crate::Isa;
diff --git a/src/cpu/csr/verif.rs b/src/cpu/csr/verif.rs
new file mode 100644
index 0000000..d763a8a
--- /dev/null
+++ b/src/cpu/csr/verif.rs
@@ -0,0 +1,43 @@
+//! Verification hooks (`--cfg carron_verif` only).
+use super::*;
+
+impl CSRs {
+    /// Initialise every field of `*p` except the 4096-entry CSR array, which the caller has set up.
+    ///
+    /// # Safety
+    /// `p` must be valid for writes; nothing is dropped.
+    pub unsafe fn verif_init(
+        p: *mut Self,
+        tselect: usize,
+        tdata1: [u64; 8],
+        tdata2: [u64; 8],
+        pc: Rc<RefCell<u64>>,
+        isa: Rc<Isa>,
+    ) {
+        use std::ptr::{addr_of_mut, write};
+        let triggers = Triggers {
+            tselect,
+            tdata1,
+            tdata2,
+        };
+        write(addr_of_mut!((*p).triggers), triggers);
+        write(addr_of_mut!((*p).pc), pc);
+        write(addr_of_mut!((*p).isa), isa);
+    }
+
+    pub fn verif_raw(&self) -> &[u64; 4096] {
+        &self.csrs
+    }
+
+    pub fn verif_raw_mut(&mut self) -> &mut [u64; 4096] {
+        &mut self.csrs
+    }
+
+    pub fn verif_triggers(&self) -> (usize, &[u64; 8], &[u64; 8]) {
+        (
+            self.triggers.tselect,
+            &self.triggers.tdata1,
+            &self.triggers.tdata2,
+        )
+    }
+}
diff --git a/src/cpu/reg.rs b/src/cpu/reg.rs
index 1164746..c92d8bf 100644
--- a/src/cpu/reg.rs
+++ b/src/cpu/reg.rs
@@ -1,3 +1,6 @@
+#[cfg(carron_verif)]
+mod verif;
+
 use crate::cpu::instruction::reg2str;
 use crate::cpu::CrossIsaUtil;
 use crate::{log, Isa};
diff --git a/src/cpu/reg/verif.rs b/src/cpu/reg/verif.rs
new file mode 100644
index 0000000..c42495d
--- /dev/null
+++ b/src/cpu/reg/verif.rs
@@ -0,0 +1,12 @@
+//! Verification hooks (`--cfg carron_verif` only).
+use super::*;
+
+impl Register {
+    pub fn verif_new(regs: [u64; 32], isa: Rc<Isa>) -> Self {
+        Register { regs, isa }
+    }
+
+    pub fn verif_raw(&self) -> &[u64; 32] {
+        &self.regs
+    }
+}
diff --git a/src/cpu/verif.rs b/src/cpu/verif.rs
new file mode 100644
index 0000000..90fde15
--- /dev/null
+++ b/src/cpu/verif.rs
@@ -0,0 +1,61 @@
+//! Verification hooks (compiled only with `--cfg carron_verif`): build a `Cpu` from explicit
+//! parts and read back its private state.  No behaviour of the emulator depends on this file.
+use super::*;
+
+pub use super::instruction::{Extensions, Instruction, OpecodeKind};
+pub use super::mmu::Mmu;
+pub use super::reg::Register;
+
+impl Cpu {
+    /// Initialise every field of `*p` except the CSR file, which the caller has set up.
+    ///
+    /// # Safety
+    /// `p` must be valid for writes; nothing is dropped.
+    #[allow(clippy::too_many_arguments)]
+    pub unsafe fn verif_init(
+        p: *mut Self,
+        pc: Rc<RefCell<u64>>,
+        bus: bus::Bus,
+        regs: reg::Register,
+        mmu: mmu::Mmu,
+        reservation_set: Option<usize>,
+        isa: Rc<Isa>,
+        priv_lv: PrivilegedLevel,
+    ) {
+        use std::ptr::{addr_of_mut, write};
+        write(addr_of_mut!((*p).pc), pc);
+        write(addr_of_mut!((*p).bus), bus);
+        write(addr_of_mut!((*p).regs), regs);
+        write(addr_of_mut!((*p).mmu), mmu);
+        write(addr_of_mut!((*p).reservation_set), reservation_set);
+        write(addr_of_mut!((*p).isa), isa);
+        write(addr_of_mut!((*p).priv_lv), priv_lv);
+    }
+
+    /// # Safety
+    /// `p` must point to memory laid out as a `Cpu`.
+    pub unsafe fn verif_csrs_ptr(p: *mut Self) -> *mut csr::CSRs {
+        std::ptr::addr_of_mut!((*p).csrs)
+    }
+
+    pub fn verif_priv(&self) -> PrivilegedLevel {
+        self.priv_lv
+    }
+
+    pub fn verif_csrs(&self) -> &csr::CSRs {
+        &self.csrs
+    }
+
+    pub fn verif_csrs_mut(&mut self) -> &mut csr::CSRs {
+        &mut self.csrs
+    }
+
+    pub fn verif_trans_addr(
+        &mut self,
+        purpose: TransFor,
+        align: TransAlign,
+        addr: u64,
+    ) -> Result<u64, (Option<u64>, TrapCause, String)> {
+        self.trans_addr(purpose, align, addr)
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 7ca75c8..352f3a7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 pub mod bus;
 pub mod cmdline;
 pub mod cpu;
-- 
2.43.0


From 3688195c91cbb9dd7c4ad37d97fbea61ef72bbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 02/64] fix: SLT compares all 64 bits on RV64

---
 src/cpu/execution/inst_32/base_i.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cpu/execution/inst_32/base_i.rs b/src/cpu/execution/inst_32/base_i.rs
index c6f4465..98fac65 100644
--- a/src/cpu/execution/inst_32/base_i.rs
+++ b/src/cpu/execution/inst_32/base_i.rs
@@ -227,7 +227,14 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         OpecodeKind::OP_SLT => {
             cpu.regs.write(
                 inst.rd,
-                ((cpu.regs.read(inst.rs1) as i32) < (cpu.regs.read(inst.rs2) as i32)) as u64,
+                match *cpu.isa {
+                    Isa::Rv32 => {
+                        ((cpu.regs.read(inst.rs1) as i32) < (cpu.regs.read(inst.rs2) as i32)) as u64
+                    }
+                    Isa::Rv64 => {
+                        ((cpu.regs.read(inst.rs1) as i64) < (cpu.regs.read(inst.rs2) as i64)) as u64
+                    }
+                },
             );
         }
         OpecodeKind::OP_SLTU => {
-- 
2.43.0


From 8e6502d3088d7f3da1d6223299ef6d165e954eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:39 +0000
Subject: [PATCH 03/64] fix: REM uses the full 64-bit operands on RV64

---
 src/cpu/execution/inst_32/m_extension.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cpu/execution/inst_32/m_extension.rs b/src/cpu/execution/inst_32/m_extension.rs
index fed0360..4bbf1c1 100644
--- a/src/cpu/execution/inst_32/m_extension.rs
+++ b/src/cpu/execution/inst_32/m_extension.rs
@@ -96,8 +96,13 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             } else if rs1 as i64 == i64::MIN && rs2 as i64 == -1 {
                 cpu.regs.write(inst.rd, 0);
             } else {
-                cpu.regs
-                    .write(inst.rd, (rs1 as i32 as i64 % rs2 as i32 as i64) as u64);
+                cpu.regs.write(
+                    inst.rd,
+                    match *cpu.isa {
+                        Isa::Rv32 => (rs1 as i32 as i64 % rs2 as i32 as i64) as u64,
+                        Isa::Rv64 => (rs1 as i64 % rs2 as i64) as u64,
+                    },
+                );
             }
         }
         OpecodeKind::OP_REMU => {
-- 
2.43.0


From 834f53f7b95f06abbc4f6ad5f8dba94906bed958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:42 +0000
Subject: [PATCH 04/64] fix: DIVUW/REMUW test only the low word of the divisor
 for zero

---
 src/cpu/execution/inst_32/m_extension.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/execution/inst_32/m_extension.rs b/src/cpu/execution/inst_32/m_extension.rs
index 4bbf1c1..408b05e 100644
--- a/src/cpu/execution/inst_32/m_extension.rs
+++ b/src/cpu/execution/inst_32/m_extension.rs
@@ -139,7 +139,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             }
         }
         OpecodeKind::OP_DIVUW => {
-            if rs2 == 0 {
+            if rs2 as u32 == 0 {
                 cpu.regs.write(inst.rd, (2i32.pow(32) - 1) as u64);
             } else {
                 cpu.regs
@@ -147,7 +147,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             }
         }
         OpecodeKind::OP_REMUW => {
-            if rs2 == 0 {
+            if rs2 as u32 == 0 {
                 cpu.regs.write(inst.rd, rs1 as i32 as u64);
             } else {
                 cpu.regs
-- 
2.43.0


From 0b646067c045bae3bc4fa0df294c8b04de136f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 05/64] fix: RV32 shifts use only the low five bits of the
 amount

---
 src/cpu/execution/inst_32/base_i.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/cpu/execution/inst_32/base_i.rs b/src/cpu/execution/inst_32/base_i.rs
index 98fac65..61182a1 100644
--- a/src/cpu/execution/inst_32/base_i.rs
+++ b/src/cpu/execution/inst_32/base_i.rs
@@ -221,8 +221,13 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 .write(inst.rd, cpu.regs.read(inst.rs1) - cpu.regs.read(inst.rs2));
         }
         OpecodeKind::OP_SLL => {
-            cpu.regs
-                .write(inst.rd, cpu.regs.read(inst.rs1) << cpu.regs.read(inst.rs2));
+            cpu.regs.write(
+                inst.rd,
+                match *cpu.isa {
+                    Isa::Rv32 => cpu.regs.read(inst.rs1) << (cpu.regs.read(inst.rs2) & 0b11111),
+                    Isa::Rv64 => cpu.regs.read(inst.rs1) << (cpu.regs.read(inst.rs2) & 0b111111),
+                },
+            );
         }
         OpecodeKind::OP_SLT => {
             cpu.regs.write(
@@ -248,18 +253,25 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 .write(inst.rd, cpu.regs.read(inst.rs1) ^ cpu.regs.read(inst.rs2));
         }
         OpecodeKind::OP_SRL => {
-            cpu.regs
-                .write(inst.rd, cpu.regs.read(inst.rs1) >> cpu.regs.read(inst.rs2));
+            cpu.regs.write(
+                inst.rd,
+                match *cpu.isa {
+                    Isa::Rv32 => cpu.regs.read(inst.rs1) >> (cpu.regs.read(inst.rs2) & 0b11111),
+                    Isa::Rv64 => cpu.regs.read(inst.rs1) >> (cpu.regs.read(inst.rs2) & 0b111111),
+                },
+            );
         }
         OpecodeKind::OP_SRA => {
             cpu.regs.write(
                 inst.rd,
                 match *cpu.isa {
                     Isa::Rv32 => {
-                        ((cpu.regs.read(inst.rs1) as i32) >> cpu.regs.read(inst.rs2)) as u64
+                        ((cpu.regs.read(inst.rs1) as i32) >> (cpu.regs.read(inst.rs2) & 0b11111))
+                            as u64
                     }
                     Isa::Rv64 => {
-                        ((cpu.regs.read(inst.rs1) as i64) >> cpu.regs.read(inst.rs2)) as u64
+                        ((cpu.regs.read(inst.rs1) as i64) >> (cpu.regs.read(inst.rs2) & 0b111111))
+                            as u64
                     }
                 },
             );
-- 
2.43.0


From 4cf2dce729df2515dee7a594c492f72ffb6402e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:59 +0000
Subject: [PATCH 06/64] fix: keep pc within 32 bits on RV32

---
 src/cpu.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cpu.rs b/src/cpu.rs
index 88bc915..bead22d 100644
--- a/src/cpu.rs
+++ b/src/cpu.rs
@@ -97,11 +97,12 @@ impl Cpu {
     }
 
     fn add2pc(&mut self, addval: i32) {
-        *self.pc.borrow_mut() = (self.pc() as i64 + addval as i64) as u64;
+        let newpc = (self.pc() as i64 + addval as i64) as u64;
+        self.update_pc(newpc);
     }
 
     fn update_pc(&mut self, newpc: u64) {
-        *self.pc.borrow_mut() = newpc;
+        *self.pc.borrow_mut() = newpc.fix2regsz(&self.isa);
     }
 
     fn priv_lv(&self) -> PrivilegedLevel {
-- 
2.43.0


From 9d7e78845958053183102ddd047bf5b40c6d6dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 07/64] fix: C.JR clears the least-significant bit of its
 target like C.JALR

---
 src/cpu/execution/inst_16/c_extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/execution/inst_16/c_extension.rs b/src/cpu/execution/inst_16/c_extension.rs
index 68a50bf..7bb5a42 100644
--- a/src/cpu/execution/inst_16/c_extension.rs
+++ b/src/cpu/execution/inst_16/c_extension.rs
@@ -135,7 +135,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             }
         }
         OpecodeKind::OP_C_JR => {
-            cpu.update_pc(cpu.regs.read(inst.rs1));
+            cpu.update_pc(cpu.regs.read(inst.rs1) & !0x1);
         }
         OpecodeKind::OP_C_MV => {
             cpu.regs.write(inst.rd, cpu.regs.read(inst.rs2));
-- 
2.43.0


From 72ff89c97ab128733e5f270c0f93472994bb50f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:04 +0000
Subject: [PATCH 08/64] fix: C.SDSP requires 8-byte alignment like every other
 doubleword store

---
 src/cpu/execution/inst_16/c_extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/execution/inst_16/c_extension.rs b/src/cpu/execution/inst_16/c_extension.rs
index 7bb5a42..5e83f83 100644
--- a/src/cpu/execution/inst_16/c_extension.rs
+++ b/src/cpu/execution/inst_16/c_extension.rs
@@ -169,7 +169,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         OpecodeKind::OP_C_SDSP => {
             let store_addr = cpu.trans_addr(
                 TransFor::StoreAMO,
-                TransAlign::Size32,
+                TransAlign::Size64,
                 (cpu.regs.read(Some(REG_SP)) as i64 + inst.imm.unwrap() as i64) as u64,
             )?;
             cpu.bus.store64(store_addr, cpu.regs.read(inst.rs2))?;
-- 
2.43.0


From 8830b028de986647c64cb280b03a2ff16c904992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:38 +0000
Subject: [PATCH 09/64] fix: SFENCE.VMA is illegal in U-mode and reports its
 trap without a physical load

---
 src/cpu/execution/inst_32/priv_extension.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/cpu/execution/inst_32/priv_extension.rs b/src/cpu/execution/inst_32/priv_extension.rs
index 7e60da7..87d88bf 100644
--- a/src/cpu/execution/inst_32/priv_extension.rs
+++ b/src/cpu/execution/inst_32/priv_extension.rs
@@ -87,14 +87,18 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         }
         OpecodeKind::OP_WFI => { /* nop */ }
         OpecodeKind::OP_SFENCE_VMA => {
-            if cpu.priv_lv() == PrivilegedLevel::Supervisor
-                && cpu
-                    .csrs
-                    .read_xstatus(PrivilegedLevel::Machine, Xstatus::TVM)
-                    == 1
+            if cpu.priv_lv() == PrivilegedLevel::User
+                || cpu.priv_lv() == PrivilegedLevel::Supervisor
+                    && cpu
+                        .csrs
+                        .read_xstatus(PrivilegedLevel::Machine, Xstatus::TVM)
+                        == 1
             {
-                let illegal_inst = cpu.bus.load32(cpu.pc())?;
-                cpu.trap(illegal_inst, TrapCause::IllegalInst);
+                return Err((
+                    None,
+                    TrapCause::IllegalInst,
+                    "exec sfence.vma without permission".to_string(),
+                ));
             }
         }
         _ => panic!("not an privileged extension"),
-- 
2.43.0


From 9ef07a6066f71c82a3eaeed735bfeaf92b15bdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:41 +0000
Subject: [PATCH 10/64] fix: SRET under mstatus.TSR traps only below M-mode and
 then leaves the state alone

---
 src/cpu/execution/inst_32/priv_extension.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/cpu/execution/inst_32/priv_extension.rs b/src/cpu/execution/inst_32/priv_extension.rs
index 87d88bf..6359001 100644
--- a/src/cpu/execution/inst_32/priv_extension.rs
+++ b/src/cpu/execution/inst_32/priv_extension.rs
@@ -11,29 +11,24 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 .read_xstatus(PrivilegedLevel::Machine, Xstatus::TSR)
                 == 1
             {
+                // mstatus.TSR == 1
                 PrivilegedLevel::Machine
             } else {
                 PrivilegedLevel::Supervisor
             };
             if cpu.priv_lv() < require_priv {
                 return Err((
-                    Some(cpu.bus.load32(cpu.pc())?),
+                    None,
                     TrapCause::IllegalInst,
-                    "exec sret but mstatus.TSR == 1".to_string(),
+                    "exec sret without permission".to_string(),
                 ));
             }
 
             let new_priv = cpu
                 .csrs
                 .read_xstatus(PrivilegedLevel::Supervisor, Xstatus::SPP);
-            if cpu.csrs.read(CSRname::mstatus.wrap())? >> 22 & 1 == 1 {
-                // mstatus.TSR == 1
-                let except_pc = cpu.pc();
-                cpu.trap(except_pc, TrapCause::IllegalInst);
-            } else {
-                let new_pc = cpu.csrs.read(CSRname::sepc.wrap())?;
-                cpu.update_pc(new_pc);
-            }
+            let new_pc = cpu.csrs.read(CSRname::sepc.wrap())?;
+            cpu.update_pc(new_pc);
 
             // sstatus.SIE = sstatus.SPIE
             cpu.csrs.write_xstatus(
-- 
2.43.0


From 186970fd96ac9f9a834f0b47c4795eff2aaf8060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:43 +0000
Subject: [PATCH 11/64] fix: MRET is illegal below M-mode

---
 src/cpu/execution/inst_32/priv_extension.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cpu/execution/inst_32/priv_extension.rs b/src/cpu/execution/inst_32/priv_extension.rs
index 6359001..a9e00a4 100644
--- a/src/cpu/execution/inst_32/priv_extension.rs
+++ b/src/cpu/execution/inst_32/priv_extension.rs
@@ -53,6 +53,14 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             log::debugln!("csrs.sepc: {:#x}", cpu.csrs.read(CSRname::sepc.wrap())?);
         }
         OpecodeKind::OP_MRET => {
+            if cpu.priv_lv() < PrivilegedLevel::Machine {
+                return Err((
+                    None,
+                    TrapCause::IllegalInst,
+                    "exec mret without permission".to_string(),
+                ));
+            }
+
             let new_priv = cpu
                 .csrs
                 .read_xstatus(PrivilegedLevel::Machine, Xstatus::MPP);
-- 
2.43.0


From 00cfcaa4a14b43e5c3136bd0491f6b5691ba3e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 12/64] fix: WFI is illegal below M-mode when mstatus.TW is set

---
 src/cpu/execution/inst_32/priv_extension.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/cpu/execution/inst_32/priv_extension.rs b/src/cpu/execution/inst_32/priv_extension.rs
index a9e00a4..9f4c2ab 100644
--- a/src/cpu/execution/inst_32/priv_extension.rs
+++ b/src/cpu/execution/inst_32/priv_extension.rs
@@ -88,7 +88,21 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             });
             log::debugln!("priv: {:?}", cpu.priv_lv());
         }
-        OpecodeKind::OP_WFI => { /* nop */ }
+        OpecodeKind::OP_WFI => {
+            if cpu.priv_lv() < PrivilegedLevel::Machine
+                && cpu
+                    .csrs
+                    .read_xstatus(PrivilegedLevel::Machine, Xstatus::TW)
+                    == 1
+            {
+                return Err((
+                    None,
+                    TrapCause::IllegalInst,
+                    "exec wfi but mstatus.TW == 1".to_string(),
+                ));
+            }
+            /* otherwise nop */
+        }
         OpecodeKind::OP_SFENCE_VMA => {
             if cpu.priv_lv() == PrivilegedLevel::User
                 || cpu.priv_lv() == PrivilegedLevel::Supervisor
-- 
2.43.0


From ec8f5c0ff498d7835b26d09c18448de24e1bb9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 13/64] fix: a jump, branch, trap or return whose target is its
 own address stays there

---
 src/cpu/execution/inst_16.rs             | 17 ++++++++++-------
 src/cpu/execution/inst_16/c_extension.rs |  4 ++++
 src/cpu/execution/inst_32.rs             | 23 ++++++++++++++++-------
 src/cpu/execution/inst_32/base_i.rs      | 16 ++++++++++++++++
 4 files changed, 46 insertions(+), 14 deletions(-)

diff --git a/src/cpu/execution/inst_16.rs b/src/cpu/execution/inst_16.rs
index b222c4e..73bb090 100644
--- a/src/cpu/execution/inst_16.rs
+++ b/src/cpu/execution/inst_16.rs
@@ -1,6 +1,6 @@
 mod c_extension;
 use super::Cpu;
-use crate::cpu::instruction::Instruction;
+use crate::cpu::instruction::{Instruction, OpecodeKind};
 use crate::cpu::TrapCause;
 
 pub fn exe_cinst(
@@ -9,14 +9,17 @@ pub fn exe_cinst(
 ) -> Result<(), (Option<u64>, TrapCause, String)> {
     const INST_SIZE: u64 = 2;
 
-    // store previous program counter for excluding branch case
-    let prev_pc = cpu.pc();
-
     c_extension::exec(inst, cpu)?;
 
-    // add the program counter when it isn't a branch instruction
-    if cpu.pc() == prev_pc {
-        cpu.add2pc(INST_SIZE as i32);
+    // add the program counter when the instruction doesn't set it by itself
+    match inst.opc {
+        OpecodeKind::OP_C_J
+        | OpecodeKind::OP_C_JAL
+        | OpecodeKind::OP_C_JR
+        | OpecodeKind::OP_C_JALR
+        | OpecodeKind::OP_C_BEQZ
+        | OpecodeKind::OP_C_BNEZ => (),
+        _ => cpu.add2pc(INST_SIZE as i32),
     }
 
     Ok(())
diff --git a/src/cpu/execution/inst_16/c_extension.rs b/src/cpu/execution/inst_16/c_extension.rs
index 5e83f83..26d9b8d 100644
--- a/src/cpu/execution/inst_16/c_extension.rs
+++ b/src/cpu/execution/inst_16/c_extension.rs
@@ -127,11 +127,15 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         OpecodeKind::OP_C_BEQZ => {
             if cpu.regs.read(inst.rs1) == 0 {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_C_BNEZ => {
             if cpu.regs.read(inst.rs1) != 0 {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_C_JR => {
diff --git a/src/cpu/execution/inst_32.rs b/src/cpu/execution/inst_32.rs
index 727fe06..1ef6b0a 100644
--- a/src/cpu/execution/inst_32.rs
+++ b/src/cpu/execution/inst_32.rs
@@ -4,15 +4,12 @@ mod m_extension;
 mod priv_extension;
 mod zicsr_extension;
 
-use crate::cpu::instruction::{Extensions, Instruction};
+use crate::cpu::instruction::{Extensions, Instruction, OpecodeKind};
 use crate::cpu::{Cpu, TrapCause};
 
 pub fn exe_inst(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapCause, String)> {
     const INST_SIZE: u64 = 4;
 
-    // store previous program counter for excluding branch case
-    let prev_pc = cpu.pc();
-
     match inst.opc_to_extension() {
         Extensions::BaseI => base_i::exec(inst, cpu)?,
         Extensions::A => a_extension::exec(inst, cpu)?,
@@ -22,9 +19,21 @@ pub fn exe_inst(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, T
         _ => panic!("not a full size instruction."),
     }
 
-    // add the program counter when it isn't a branch instruction
-    if cpu.pc() == prev_pc {
-        cpu.add2pc(INST_SIZE as i32);
+    // add the program counter when the instruction doesn't set it by itself
+    match inst.opc {
+        OpecodeKind::OP_JAL
+        | OpecodeKind::OP_JALR
+        | OpecodeKind::OP_BEQ
+        | OpecodeKind::OP_BNE
+        | OpecodeKind::OP_BLT
+        | OpecodeKind::OP_BGE
+        | OpecodeKind::OP_BLTU
+        | OpecodeKind::OP_BGEU
+        | OpecodeKind::OP_ECALL
+        | OpecodeKind::OP_EBREAK
+        | OpecodeKind::OP_SRET
+        | OpecodeKind::OP_MRET => (),
+        _ => cpu.add2pc(INST_SIZE as i32),
     }
 
     Ok(())
diff --git a/src/cpu/execution/inst_32/base_i.rs b/src/cpu/execution/inst_32/base_i.rs
index 61182a1..00c1ae1 100644
--- a/src/cpu/execution/inst_32/base_i.rs
+++ b/src/cpu/execution/inst_32/base_i.rs
@@ -28,22 +28,30 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         OpecodeKind::OP_BEQ => {
             if cpu.regs.read(inst.rs1) == cpu.regs.read(inst.rs2) {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_BNE => {
             if cpu.regs.read(inst.rs1) != cpu.regs.read(inst.rs2) {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_BLT => match *cpu.isa {
             Isa::Rv32 => {
                 if (cpu.regs.read(inst.rs1) as i32) < (cpu.regs.read(inst.rs2) as i32) {
                     cpu.add2pc(inst.imm.unwrap());
+                } else {
+                    cpu.add2pc(INST_SIZE as i32);
                 }
             }
             Isa::Rv64 => {
                 if (cpu.regs.read(inst.rs1) as i64) < (cpu.regs.read(inst.rs2) as i64) {
                     cpu.add2pc(inst.imm.unwrap());
+                } else {
+                    cpu.add2pc(INST_SIZE as i32);
                 }
             }
         },
@@ -51,22 +59,30 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             Isa::Rv32 => {
                 if (cpu.regs.read(inst.rs1) as i32) >= (cpu.regs.read(inst.rs2) as i32) {
                     cpu.add2pc(inst.imm.unwrap());
+                } else {
+                    cpu.add2pc(INST_SIZE as i32);
                 }
             }
             Isa::Rv64 => {
                 if (cpu.regs.read(inst.rs1) as i64) >= (cpu.regs.read(inst.rs2) as i64) {
                     cpu.add2pc(inst.imm.unwrap());
+                } else {
+                    cpu.add2pc(INST_SIZE as i32);
                 }
             }
         },
         OpecodeKind::OP_BLTU => {
             if cpu.regs.read(inst.rs1) < cpu.regs.read(inst.rs2) {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_BGEU => {
             if cpu.regs.read(inst.rs1) >= cpu.regs.read(inst.rs2) {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_LB => {
-- 
2.43.0


From efffa74da57c918376cbb155bc5db979e9628880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:11 +0000
Subject: [PATCH 14/64] fix: C.EBREAK raises a breakpoint exception

---
 src/cpu/execution/inst_16.rs             | 3 ++-
 src/cpu/execution/inst_16/c_extension.rs | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cpu/execution/inst_16.rs b/src/cpu/execution/inst_16.rs
index 73bb090..4c44725 100644
--- a/src/cpu/execution/inst_16.rs
+++ b/src/cpu/execution/inst_16.rs
@@ -18,7 +18,8 @@ pub fn exe_cinst(
         | OpecodeKind::OP_C_JR
         | OpecodeKind::OP_C_JALR
         | OpecodeKind::OP_C_BEQZ
-        | OpecodeKind::OP_C_BNEZ => (),
+        | OpecodeKind::OP_C_BNEZ
+        | OpecodeKind::OP_C_EBREAK => (),
         _ => cpu.add2pc(INST_SIZE as i32),
     }
 
diff --git a/src/cpu/execution/inst_16/c_extension.rs b/src/cpu/execution/inst_16/c_extension.rs
index 26d9b8d..dc2f968 100644
--- a/src/cpu/execution/inst_16/c_extension.rs
+++ b/src/cpu/execution/inst_16/c_extension.rs
@@ -144,7 +144,9 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         OpecodeKind::OP_C_MV => {
             cpu.regs.write(inst.rd, cpu.regs.read(inst.rs2));
         }
-        OpecodeKind::OP_C_EBREAK => { /* NOP */ }
+        OpecodeKind::OP_C_EBREAK => {
+            cpu.trap(cpu.pc(), TrapCause::Breakpoint);
+        }
         // -- rv64 --
         OpecodeKind::OP_C_LD => {
             let load_addr = cpu.trans_addr(
-- 
2.43.0


From 62fc2d9f06167f535a74acea078e339381ef00e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:24 +0000
Subject: [PATCH 15/64] fix: vectored trap entry uses the new cause, for
 interrupts only

---
 src/cpu/trap.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/cpu/trap.rs b/src/cpu/trap.rs
index 7bb99b3..eb5943f 100644
--- a/src/cpu/trap.rs
+++ b/src/cpu/trap.rs
@@ -145,16 +145,27 @@ impl Cpu {
         }
     }
 
+    fn trap_vector(&self, tvec: u64, cause_of_trap: TrapCause) -> u64 {
+        const INTERRUPT: u64 = 1 << 31;
+        let cause = cause_of_trap as u64;
+
+        // only interrupts are vectored
+        if tvec & 0b1 == 1 && cause & INTERRUPT != 0 {
+            (tvec & !0b11) + 4 * (cause & !INTERRUPT)
+        } else {
+            tvec & !0b11
+        }
+    }
+
     pub fn trap(&mut self, tval_addr: u64, cause_of_trap: TrapCause) {
         let prev_priv = self.priv_lv();
 
         // check Machine Trap Delegation Registers
         let deleg = self.get_deleg(cause_of_trap);
         let new_pc = if self.priv_lv() != PrivilegedLevel::Machine
-            && (deleg & 1 << cause_of_trap as u32) != 0
+            && (deleg & 1 << (cause_of_trap as u64 & 0x3f)) != 0
         {
             self.set_priv_lv(PrivilegedLevel::Supervisor);
-            let scause = self.csrs.read(CSRname::scause.wrap()).unwrap();
 
             log::infoln!("delegated");
             self.csrs
@@ -191,14 +202,9 @@ impl Cpu {
                 .write_xstatus(PrivilegedLevel::Supervisor, Xstatus::SPP, prev_priv as u64); // set prev_priv to SPP
 
             let stvec = self.csrs.read(CSRname::stvec.wrap()).unwrap();
-            if stvec & 0b1 == 1 {
-                (stvec - 1) + 4 * scause.trailing_zeros() as u64
-            } else {
-                stvec
-            }
+            self.trap_vector(stvec, cause_of_trap)
         } else {
             self.set_priv_lv(PrivilegedLevel::Machine);
-            let mcause = self.csrs.read(CSRname::mcause.wrap()).unwrap();
 
             self.csrs
                 .write(
@@ -234,11 +240,7 @@ impl Cpu {
                 .write_xstatus(PrivilegedLevel::Machine, Xstatus::MPP, prev_priv as u64); // set prev_priv to MPP
 
             let mtvec = self.csrs.read(CSRname::mtvec.wrap()).unwrap();
-            if mtvec & 0b1 == 1 {
-                (mtvec - 1) + 4 * mcause.trailing_zeros() as u64
-            } else {
-                mtvec
-            }
+            self.trap_vector(mtvec, cause_of_trap)
         };
 
         self.update_pc(new_pc);
-- 
2.43.0


From f4e95f322bd630539e542642537daab767ab25d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:57 +0000
Subject: [PATCH 16/64] fix: sstatus and ustatus no longer expose mstatus.MPP
 and other machine-level bits

---
 src/cpu/csr.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index 8613ea1..d176d92 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -53,24 +53,23 @@ impl CSRs {
         self
     }
 
+    // ustatus: UPIE, UIE
     fn umask(&self) -> u64 {
-        match *self.isa {
-            Isa::Rv32 => 0b10000000000011010111100100110011,
-            Isa::Rv64 => 0b100000000000000000000000000001100000000000011010111100100110011,
-        }
+        0b10001
     }
 
+    // sstatus: SD, UXL(rv64 only), MXR, SUM, XS, FS, SPP, SPIE, UPIE, SIE, UIE
     fn smask(&self) -> u64 {
         match *self.isa {
-            Isa::Rv32 => 0b10000000000011010111100100110011,
-            Isa::Rv64 => 0b100000000000000000000000000001100000000000011010111100100110011,
+            Isa::Rv32 => 0b10000000000011011110000100110011,
+            Isa::Rv64 => 1 << 63 | 0b11 << 32 | 0b11011110000100110011,
         }
     }
 
     fn mmask(&self) -> u64 {
         match *self.isa {
             Isa::Rv32 => 0b10000000011111111111100110111011,
-            Isa::Rv64 => 0b100000000000000000000000000111100000000011111111111100110111011,
+            Isa::Rv64 => 1 << 63 | 0b1111 << 32 | 0b11111111111100110111011,
         }
     }
 
-- 
2.43.0


From eee7ab919297519bdbc205cfc6595a3e49017ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 17/64] fix: writing sstatus, ustatus, sie or sip replaces
 exactly the bits they expose

---
 src/cpu/csr.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index d176d92..d73a6b1 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -91,6 +91,11 @@ impl CSRs {
         }
     }
 
+    // replace the bits of csr that a restricted view of it exposes
+    fn write_alias(&mut self, dist: usize, mask: u64, src: u64) {
+        self.csrs[dist] = (self.csrs[dist] & !mask) | (src & mask);
+    }
+
     pub fn bitset(
         &mut self,
         dist: Option<usize>,
@@ -142,10 +147,13 @@ impl CSRs {
 
         let src = src.fix2regsz(&self.isa);
         match dist {
-            USTATUS => self.csrs[MSTATUS] |= src & self.umask(),
-            SSTATUS => self.csrs[MSTATUS] |= src & self.smask(),
-            SIE => self.csrs[CSRname::mie as usize] = src & SIESIPMASK,
-            SIP => self.csrs[CSRname::mip as usize] = src & SIESIPMASK,
+            USTATUS => self.write_alias(MSTATUS, self.umask(), src),
+            SSTATUS => {
+                let mask = self.mask_warl(MSTATUS, self.smask());
+                self.write_alias(MSTATUS, mask, src)
+            }
+            SIE => self.write_alias(CSRname::mie as usize, SIESIPMASK, src),
+            SIP => self.write_alias(CSRname::mip as usize, SIESIPMASK, src),
             MISA => {
                 if *self.pc.borrow() % 4 != 0 {
                     let c_ext_bit = (self.csrs[MISA] >> 2) & 1;
-- 
2.43.0


From 646b56a85b0f45dbde9ce43eba6ddd2e61e016f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:03 +0000
Subject: [PATCH 18/64] fix: sstatus set/clear cannot change mstatus.UXL

---
 src/cpu/csr.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index d73a6b1..ad59456 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -107,7 +107,9 @@ impl CSRs {
         if mask != 0 {
             match dist {
                 USTATUS => self.csrs[MSTATUS] |= mask & self.umask(),
-                SSTATUS => self.csrs[MSTATUS] |= mask & self.smask(),
+                SSTATUS => {
+                    self.csrs[MSTATUS] |= self.mask_warl(MSTATUS, mask & self.smask())
+                }
                 SIE => self.csrs[CSRname::mie as usize] |= mask & SIESIPMASK,
                 SIP => self.csrs[CSRname::mip as usize] |= mask & SIESIPMASK,
                 _ => self.csrs[dist] |= mask,
@@ -128,7 +130,9 @@ impl CSRs {
         if mask != 0 {
             match dist {
                 USTATUS => self.csrs[MSTATUS] &= !(mask & self.umask()),
-                SSTATUS => self.csrs[MSTATUS] &= !(mask & self.smask()),
+                SSTATUS => {
+                    self.csrs[MSTATUS] &= !self.mask_warl(MSTATUS, mask & self.smask())
+                }
                 SIE => self.csrs[CSRname::mie as usize] &= !(mask & SIESIPMASK),
                 SIP => self.csrs[CSRname::mip as usize] &= !(mask & SIESIPMASK),
                 _ => self.csrs[dist] &= !mask,
-- 
2.43.0


From 1106b22df870fdda35ffaa25e42ae81496dec33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:05 +0000
Subject: [PATCH 19/64] fix: misa.C keeps its place when a misaligned pc
 protects it

---
 src/cpu/csr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index ad59456..3e71abf 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -161,7 +161,7 @@ impl CSRs {
             MISA => {
                 if *self.pc.borrow() % 4 != 0 {
                     let c_ext_bit = (self.csrs[MISA] >> 2) & 1;
-                    self.csrs[MISA] = (src & !0b100) | c_ext_bit
+                    self.csrs[MISA] = (src & !0b100) | c_ext_bit << 2
                 } else {
                     self.csrs[MISA] = src
                 }
-- 
2.43.0


From 808f403c4b5d51bb89504d2d9a1c76f8188d79f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:31 +0000
Subject: [PATCH 20/64] fix: mstatus.MPP never takes the reserved value, which
 made the emulator panic

---
 src/cpu/csr.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index 3e71abf..dac1f19 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -91,6 +91,14 @@ impl CSRs {
         }
     }
 
+    // mstatus.MPP is WARL: the reserved privilege level is never held
+    fn legalize_mpp(&mut self, prev_mstatus: u64) {
+        const MPP: u64 = 0b11 << 11;
+        if self.csrs[MSTATUS] & MPP == 0b10 << 11 {
+            self.csrs[MSTATUS] = (self.csrs[MSTATUS] & !MPP) | (prev_mstatus & MPP);
+        }
+    }
+
     // replace the bits of csr that a restricted view of it exposes
     fn write_alias(&mut self, dist: usize, mask: u64, src: u64) {
         self.csrs[dist] = (self.csrs[dist] & !mask) | (src & mask);
@@ -103,6 +111,7 @@ impl CSRs {
     ) -> Result<(), (Option<u64>, TrapCause, String)> {
         let dist = dist.unwrap();
 
+        let prev_mstatus = self.csrs[MSTATUS];
         let mask = self.mask_warl(dist, src.fix2regsz(&self.isa));
         if mask != 0 {
             match dist {
@@ -115,6 +124,7 @@ impl CSRs {
                 _ => self.csrs[dist] |= mask,
             }
         }
+        self.legalize_mpp(prev_mstatus);
 
         Ok(())
     }
@@ -126,6 +136,7 @@ impl CSRs {
     ) -> Result<(), (Option<u64>, TrapCause, String)> {
         let dist = dist.unwrap();
 
+        let prev_mstatus = self.csrs[MSTATUS];
         let mask = self.mask_warl(dist, src.fix2regsz(&self.isa));
         if mask != 0 {
             match dist {
@@ -138,6 +149,7 @@ impl CSRs {
                 _ => self.csrs[dist] &= !mask,
             }
         }
+        self.legalize_mpp(prev_mstatus);
 
         Ok(())
     }
@@ -149,6 +161,7 @@ impl CSRs {
     ) -> Result<(), (Option<u64>, TrapCause, String)> {
         let dist = dist.unwrap();
 
+        let prev_mstatus = self.csrs[MSTATUS];
         let src = src.fix2regsz(&self.isa);
         match dist {
             USTATUS => self.write_alias(MSTATUS, self.umask(), src),
@@ -173,6 +186,7 @@ impl CSRs {
             MHPMCOUNTER3 => (), // protect from any value
             other => self.csrs[other] = src,
         }
+        self.legalize_mpp(prev_mstatus);
         self.update_triggers(dist, src);
 
         Ok(())
-- 
2.43.0


From 5dd56ac5294544608943755cb2c41561298fc5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:33 +0000
Subject: [PATCH 21/64] fix: CSRRS/CSRRC on the trigger registers update the
 trigger

---
 src/cpu/csr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index dac1f19..bfe365c 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -125,6 +125,7 @@ impl CSRs {
             }
         }
         self.legalize_mpp(prev_mstatus);
+        self.update_triggers(dist, self.csrs[dist]);
 
         Ok(())
     }
@@ -150,6 +151,7 @@ impl CSRs {
             }
         }
         self.legalize_mpp(prev_mstatus);
+        self.update_triggers(dist, self.csrs[dist]);
 
         Ok(())
     }
-- 
2.43.0


From a15f912a7eb30e079dcc911328af7b72390ba1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:35 +0000
Subject: [PATCH 22/64] fix: selecting a trigger that does not exist no longer
 panics

---
 src/cpu/csr/breakpoint.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cpu/csr/breakpoint.rs b/src/cpu/csr/breakpoint.rs
index d2f3dff..5f35c21 100644
--- a/src/cpu/csr/breakpoint.rs
+++ b/src/cpu/csr/breakpoint.rs
@@ -12,9 +12,12 @@ impl CSRs {
     pub fn update_triggers(&mut self, dist: usize, src: u64) {
         match dist {
             0x7a0 => {
-                // tselect
-                let tgr_index = src as usize;
-                self.triggers.tselect = tgr_index;
+                // tselect is WARL: selecting a trigger that doesn't exist changes nothing
+                if src < self.triggers.tdata1.len() as u64 {
+                    self.triggers.tselect = src as usize;
+                }
+                let tgr_index = self.triggers.tselect;
+                self.csrs[CSRname::tselect as usize] = tgr_index as u64;
                 self.csrs[CSRname::tdata1 as usize] = self.triggers.tdata1[tgr_index];
                 self.csrs[CSRname::tdata2 as usize] = self.triggers.tdata2[tgr_index];
             }
-- 
2.43.0


From ed71b80ac7d1edfd4322dcf28a30794170b66dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:38 +0000
Subject: [PATCH 23/64] fix: every trigger is checked, whatever the others and
 tselect hold

---
 src/cpu/csr/breakpoint.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/csr/breakpoint.rs b/src/cpu/csr/breakpoint.rs
index 5f35c21..7b213e4 100644
--- a/src/cpu/csr/breakpoint.rs
+++ b/src/cpu/csr/breakpoint.rs
@@ -40,7 +40,7 @@ impl Cpu {
         purpose: TransFor,
         addr: u64,
     ) -> Result<(), (Option<u64>, TrapCause, String)> {
-        for trigger_num in 0..self.csrs.triggers.tselect + 1 {
+        for trigger_num in 0..self.csrs.triggers.tdata1.len() {
             let tdata1 = self.csrs.triggers.tdata1[trigger_num];
             let trigger_type = match *self.isa {
                 Isa::Rv32 => tdata1 >> 28 & 0xF,
@@ -62,7 +62,7 @@ impl Cpu {
                         || self.priv_lv() == PrivilegedLevel::Supervisor && mode_s == 0x0
                         || self.priv_lv() == PrivilegedLevel::User && mode_u == 0x0
                     {
-                        return Ok(());
+                        continue;
                     }
 
                     if match_mode != 0x0 {
-- 
2.43.0


From 0e628fc02f33aabf2273258f6015ed8c92867639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:40 +0000
Subject: [PATCH 24/64] fix: trigger types and match modes that are not
 implemented never fire instead of panicking

---
 src/cpu/csr/breakpoint.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/cpu/csr/breakpoint.rs b/src/cpu/csr/breakpoint.rs
index 7b213e4..1adaa9d 100644
--- a/src/cpu/csr/breakpoint.rs
+++ b/src/cpu/csr/breakpoint.rs
@@ -48,8 +48,6 @@ impl Cpu {
             };
 
             match trigger_type {
-                0x0 => (),
-                0x1 => panic!("SiFive address match trigger is not implemented."),
                 0x2 => {
                     let tdata2 = self.csrs.triggers.tdata2[trigger_num];
                     let match_mode = tdata1 >> 7 & 0xF;
@@ -66,7 +64,8 @@ impl Cpu {
                     }
 
                     if match_mode != 0x0 {
-                        panic!("this match mode is not supported");
+                        // this match mode is not supported
+                        continue;
                     }
 
                     match purpose {
@@ -102,10 +101,9 @@ impl Cpu {
                         }
                     }
                 }
-                0x3 => panic!("Instruction count trigger is not implemented."),
-                0x4 => panic!("Interrupt trigger is not implemented."),
-                0x5 => panic!("Exception trigger is not implemented."),
-                _ => panic!("this trigger is not supported: {trigger_type}"),
+                // no trigger, or a type that is not implemented (SiFive address match,
+                // instruction count, interrupt, exception): never fires
+                _ => (),
             }
         }
 
-- 
2.43.0


From cdc5985473260a044fe1af56353bd42058056d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 25/64] fix: a CSR instruction at the very end of DRAM no
 longer panics

---
 src/cpu/execution/inst_32/zicsr_extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/execution/inst_32/zicsr_extension.rs b/src/cpu/execution/inst_32/zicsr_extension.rs
index 1a4077e..343537e 100644
--- a/src/cpu/execution/inst_32/zicsr_extension.rs
+++ b/src/cpu/execution/inst_32/zicsr_extension.rs
@@ -3,7 +3,7 @@ use crate::cpu::{CSRname, Cpu, PrivilegedLevel, TransAlign, TransFor, TrapCause,
 
 fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, TrapCause, String)> {
     let inst_addr = cpu.trans_addr(TransFor::Fetch, TransAlign::Size8, cpu.pc())?;
-    let invalid_instruction = Some(cpu.bus.load_u32(inst_addr).expect("get instruction failed"));
+    let invalid_instruction = cpu.bus.load_u32(inst_addr).ok();
 
     if dist >= 4096 {
         return Err((
-- 
2.43.0


From 3100651779c3bf57233ce6bb8f6af6c1f498e4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:06 +0000
Subject: [PATCH 26/64] fix: every CSR is out of reach below the privilege
 level its number encodes

---
 src/cpu/execution/inst_32/zicsr_extension.rs | 25 +++++++-------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/cpu/execution/inst_32/zicsr_extension.rs b/src/cpu/execution/inst_32/zicsr_extension.rs
index 343537e..0b40a53 100644
--- a/src/cpu/execution/inst_32/zicsr_extension.rs
+++ b/src/cpu/execution/inst_32/zicsr_extension.rs
@@ -13,16 +13,17 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
         ));
     }
 
+    // csr[9:8] is the lowest privilege level that can access the CSR
+    if (cpu.priv_lv() as usize) < (dist >> 8 & 0b11) {
+        return Err((
+            invalid_instruction,
+            TrapCause::IllegalInst,
+            format!("You are in {:?} mode but accessed {dist:x}", cpu.priv_lv()),
+        ));
+    }
+
     match cpu.priv_lv() {
         PrivilegedLevel::User => {
-            if (0x100..=0x180).contains(&dist) || (0x300..=0x344).contains(&dist) {
-                return Err((
-                    invalid_instruction,
-                    TrapCause::IllegalInst,
-                    format!("You are in User mode but accessed {dist:x}"),
-                ));
-            }
-
             if (0xc00..=0xc1f).contains(&dist) {
                 let mctren = cpu.csrs.read(CSRname::mcounteren.wrap())?;
                 if mctren >> (dist - 0xc00) & 0x1 == 0 {
@@ -43,14 +44,6 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
             }
         }
         PrivilegedLevel::Supervisor => {
-            if (0x300..=0x344).contains(&dist) {
-                return Err((
-                    invalid_instruction,
-                    TrapCause::IllegalInst,
-                    format!("You are in Supervisor mode but accessed {dist:x}"),
-                ));
-            }
-
             if (0xc00..=0xc1f).contains(&dist) {
                 let mctren = cpu.csrs.read(CSRname::mcounteren.wrap())?;
                 if mctren >> (dist - 0xc00) & 0x1 == 0 {
-- 
2.43.0


From 913b6b34ea5a27aca4596da48a0c89781aac6134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:09 +0000
Subject: [PATCH 27/64] fix: writing a read-only CSR is illegal in every mode,
 reading cycle is not

---
 src/cpu/execution/inst_32/zicsr_extension.rs | 31 +++++++++++++-------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/cpu/execution/inst_32/zicsr_extension.rs b/src/cpu/execution/inst_32/zicsr_extension.rs
index 0b40a53..31fc7ba 100644
--- a/src/cpu/execution/inst_32/zicsr_extension.rs
+++ b/src/cpu/execution/inst_32/zicsr_extension.rs
@@ -1,7 +1,11 @@
 use crate::cpu::instruction::{Instruction, OpecodeKind};
 use crate::cpu::{CSRname, Cpu, PrivilegedLevel, TransAlign, TransFor, TrapCause, Xstatus};
 
-fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, TrapCause, String)> {
+fn check_accessible(
+    cpu: &mut Cpu,
+    dist: usize,
+    is_write: bool,
+) -> Result<(), (Option<u64>, TrapCause, String)> {
     let inst_addr = cpu.trans_addr(TransFor::Fetch, TransAlign::Size8, cpu.pc())?;
     let invalid_instruction = cpu.bus.load_u32(inst_addr).ok();
 
@@ -22,6 +26,15 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
         ));
     }
 
+    // csr[11:10] == 0b11 means read-only
+    if is_write && dist >> 10 & 0b11 == 0b11 {
+        return Err((
+            invalid_instruction,
+            TrapCause::IllegalInst,
+            format!("writing to a read-only CSR is not allowed: {dist:x}"),
+        ));
+    }
+
     match cpu.priv_lv() {
         PrivilegedLevel::User => {
             if (0xc00..=0xc1f).contains(&dist) {
@@ -117,15 +130,6 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
 
     if csrs_ranges.iter().any(|x| x.contains(&dist)) {
         match dist {
-            // == depends on access type ==
-            0xc00 => match cpu.priv_lv() {
-                PrivilegedLevel::Machine => Ok(()),
-                _ => Err((
-                    None,
-                    TrapCause::IllegalInst,
-                    format!("writing to cycle is not allowed: {dist:x}"),
-                )),
-            },
             // == depends on privilege ==
             // scounteren(0x106) only allow higher
             0x106 => {
@@ -161,7 +165,12 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
 }
 
 pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapCause, String)> {
-    check_accessible(cpu, inst.rs2.unwrap())?;
+    let is_write = match inst.opc {
+        OpecodeKind::OP_CSRRW | OpecodeKind::OP_CSRRWI => true,
+        // set/clear with x0 or a zero immediate only reads
+        _ => inst.rs1.unwrap() != 0,
+    };
+    check_accessible(cpu, inst.rs2.unwrap(), is_write)?;
 
     match inst.opc {
         OpecodeKind::OP_CSRRW => {
-- 
2.43.0


From c639502871932b44d758940f98bde0460e8c0bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 28/64] fix: mcounteren and scounteren also gate the upper
 halves of the counters

---
 src/cpu/execution/inst_32/zicsr_extension.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/cpu/execution/inst_32/zicsr_extension.rs b/src/cpu/execution/inst_32/zicsr_extension.rs
index 31fc7ba..9e97552 100644
--- a/src/cpu/execution/inst_32/zicsr_extension.rs
+++ b/src/cpu/execution/inst_32/zicsr_extension.rs
@@ -35,11 +35,13 @@ fn check_accessible(
         ));
     }
 
+    // the counters and, on rv32, their upper halves (0xc80..)
+    let counter = dist & !0x80;
     match cpu.priv_lv() {
         PrivilegedLevel::User => {
-            if (0xc00..=0xc1f).contains(&dist) {
+            if (0xc00..=0xc1f).contains(&counter) {
                 let mctren = cpu.csrs.read(CSRname::mcounteren.wrap())?;
-                if mctren >> (dist - 0xc00) & 0x1 == 0 {
+                if mctren >> (counter - 0xc00) & 0x1 == 0 {
                     return Err((
                         invalid_instruction,
                         TrapCause::IllegalInst,
@@ -47,7 +49,7 @@ fn check_accessible(
                     ));
                 }
                 let sctren = cpu.csrs.read(CSRname::scounteren.wrap())?;
-                if sctren >> (dist - 0xc00) & 0x1 == 0 {
+                if sctren >> (counter - 0xc00) & 0x1 == 0 {
                     return Err((
                         invalid_instruction,
                         TrapCause::IllegalInst,
@@ -57,9 +59,9 @@ fn check_accessible(
             }
         }
         PrivilegedLevel::Supervisor => {
-            if (0xc00..=0xc1f).contains(&dist) {
+            if (0xc00..=0xc1f).contains(&counter) {
                 let mctren = cpu.csrs.read(CSRname::mcounteren.wrap())?;
-                if mctren >> (dist - 0xc00) & 0x1 == 0 {
+                if mctren >> (counter - 0xc00) & 0x1 == 0 {
                     return Err((
                         invalid_instruction,
                         TrapCause::IllegalInst,
-- 
2.43.0


From b30c2c17ce84a8da396ce28aa46a518c8c8edc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:39 +0000
Subject: [PATCH 29/64] fix: S-mode instruction fetch from a user page faults,
 whatever SUM says

---
 src/cpu/mmu.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index 222b1a1..9adf3c1 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -99,6 +99,13 @@ impl Mmu {
             log::debugln!("invalid pte_u: {:x}", pte);
             return Err(self.trap_cause(purpose));
         }
+        if pte_u == 1
+            && priv_lv == PrivilegedLevel::Supervisor
+            && (purpose == TransFor::Fetch || purpose == TransFor::Deleg)
+        {
+            log::debugln!("supervisor never fetches from user page: {:x}", pte);
+            return Err(self.trap_cause(purpose));
+        }
 
         // check the A bit
         if pte_a == 0 {
-- 
2.43.0


From 59f65e9f20d72e3feb46f71f5f6a1dad9b369be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:41 +0000
Subject: [PATCH 30/64] fix: Sv39 virtual addresses that are not sign-extended
 page-fault

---
 src/cpu/mmu.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index 9adf3c1..6fdfa51 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -173,6 +173,13 @@ impl Mmu {
             PrivilegedLevel::Supervisor | PrivilegedLevel::User => match self.trans_mode {
                 AddrTransMode::Bare => Ok(addr),
                 AddrTransMode::Sv32 | AddrTransMode::Sv39 => {
+                    // Sv39: bits 63-39 must all be equal to bit 38
+                    if matches!(self.trans_mode, AddrTransMode::Sv39)
+                        && (((addr << 25) as i64) >> 25) as u64 != addr
+                    {
+                        return Err(self.trap_cause(purpose));
+                    }
+
                     let page_off = addr & 0xFFF;
                     let mut ppn = self.ppn;
                     let vpn = match *self.isa {
-- 
2.43.0


From a8be2f6b83a91ceb506cdbe5b5e11ec15ebac820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 31/64] fix: the address just past a device does not belong to
 it

---
 src/bus/clint.rs | 2 +-
 src/bus/dram.rs  | 2 +-
 src/bus/mrom.rs  | 2 +-
 src/bus/plic.rs  | 2 +-
 src/bus/uart.rs  | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bus/clint.rs b/src/bus/clint.rs
index 4ef2800..47939ac 100644
--- a/src/bus/clint.rs
+++ b/src/bus/clint.rs
@@ -33,7 +33,7 @@ impl Clint {
 impl Device for Clint {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
diff --git a/src/bus/dram.rs b/src/bus/dram.rs
index 954ac35..6daae4d 100644
--- a/src/bus/dram.rs
+++ b/src/bus/dram.rs
@@ -84,7 +84,7 @@ impl Dram {
 impl Device for Dram {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
diff --git a/src/bus/mrom.rs b/src/bus/mrom.rs
index b9029da..a5a475f 100644
--- a/src/bus/mrom.rs
+++ b/src/bus/mrom.rs
@@ -52,7 +52,7 @@ impl Mrom {
 impl Device for Mrom {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 61996b4..e072b86 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -264,7 +264,7 @@ impl Plic {
 impl Device for Plic {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index c0cd573..5c7d4ce 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -255,7 +255,7 @@ impl Uart {
 impl Device for Uart {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
-- 
2.43.0


From 506d713fd903cc322211db08b550d43f6956b9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:47 +0000
Subject: [PATCH 32/64] fix: a page table outside DRAM raises an access fault
 instead of a panic

---
 src/cpu/mmu.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index 6fdfa51..87ec06c 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -78,6 +78,14 @@ impl Mmu {
         }
     }
 
+    fn access_fault(&self, purpose: TransFor) -> TrapCause {
+        match purpose {
+            TransFor::Fetch | TransFor::Deleg => TrapCause::InstAccessFault,
+            TransFor::Load => TrapCause::LoadAccessFault,
+            TransFor::StoreAMO => TrapCause::StoreAMOAccessFault,
+        }
+    }
+
     fn check_leaf_pte(
         &self,
         purpose: TransFor,
@@ -200,6 +208,10 @@ impl Mmu {
                     let pte = loop {
                         let pte_addr = ppn * PAGESIZE + vpn[level as usize] * pte_size;
                         log::debugln!("pte_addr({}): 0x{:x}", level, pte_addr);
+                        // page tables that aren't in memory cannot be walked
+                        if !dram.in_range(pte_addr) || !dram.in_range(pte_addr + pte_size - 1) {
+                            return Err(self.access_fault(purpose));
+                        }
                         let pte =
                             match *self.isa {
                                 Isa::Rv32 => self
-- 
2.43.0


From 0eafc20ec329ec099f4ce9dcd950b7cab9e01fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:06 +0000
Subject: [PATCH 33/64] fix: PMP configurations are 8 bits wide, eight to a
 pmpcfg on RV64

---
 src/cpu/mmu/pmp.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index c91331b..4495d65 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -1,7 +1,7 @@
 use super::Mmu;
 use crate::cpu::csr::CSRs;
 use crate::cpu::{PrivilegedLevel, TransFor, TrapCause};
-use crate::log;
+use crate::{log, Isa};
 
 impl Mmu {
     fn check_pmp(
@@ -46,9 +46,13 @@ impl Mmu {
     ) -> Result<u64, TrapCause> {
         let pmpaddrs: Vec<usize> = (0x3B0..0x3BF).collect();
         let get_pmpcfg = |pmpnum| {
-            let cfgnum = pmpnum / 4;
-            let cfgoff = pmpnum % 4;
-            csrs.read(Some(0x3A0 + cfgnum)).unwrap() >> (4 * cfgoff)
+            // rv32: four 8-bit fields in each pmpcfg
+            // rv64: eight 8-bit fields in each even-numbered pmpcfg
+            let (cfgnum, cfgoff) = match *self.isa {
+                Isa::Rv32 => (pmpnum / 4, pmpnum % 4),
+                Isa::Rv64 => (pmpnum / 8 * 2, pmpnum % 8),
+            };
+            csrs.read(Some(0x3A0 + cfgnum)).unwrap() >> (8 * cfgoff)
         };
 
         for index in 0..pmpaddrs.len() {
-- 
2.43.0


From 716234af13a6afdb20a9094f78c6b7ab9e718ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:09 +0000
Subject: [PATCH 34/64] fix: the sixteenth PMP entry takes part in the check

---
 src/cpu/mmu/pmp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index 4495d65..5af2047 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -44,7 +44,7 @@ impl Mmu {
         priv_lv: PrivilegedLevel,
         csrs: &CSRs,
     ) -> Result<u64, TrapCause> {
-        let pmpaddrs: Vec<usize> = (0x3B0..0x3BF).collect();
+        let pmpaddrs: Vec<usize> = (0x3B0..=0x3BF).collect();
         let get_pmpcfg = |pmpnum| {
             // rv32: four 8-bit fields in each pmpcfg
             // rv64: eight 8-bit fields in each even-numbered pmpcfg
-- 
2.43.0


From 37c3ad8d75206c830c66261c6574c8f683a837b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 35/64] fix: a PMP entry that is off does not end the search
 for a matching one

---
 src/cpu/mmu/pmp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index 5af2047..9a79e50 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -63,7 +63,7 @@ impl Mmu {
             let pmp_x = pmpcfg >> 2 & 0x1;
             let pmp_a = pmpcfg >> 3 & 0x3;
             match pmp_a {
-                0b00 => return Ok(addr),
+                0b00 => (), // OFF: matches no address
                 0b01 => {
                     // TOR
                     let addr_aligned = addr >> 2; // addr[:2]
-- 
2.43.0


From 32a563ed7eca7804d7c2136eced39993d908ae0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:14 +0000
Subject: [PATCH 36/64] fix: PMP entries restrict M-mode only when locked

---
 src/cpu/mmu/pmp.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index 9a79e50..81d7e48 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -62,6 +62,13 @@ impl Mmu {
             let pmp_w = pmpcfg >> 1 & 0x1;
             let pmp_x = pmpcfg >> 2 & 0x1;
             let pmp_a = pmpcfg >> 3 & 0x3;
+            let pmp_l = pmpcfg >> 7 & 0x1;
+            // an entry that isn't locked grants M-mode everything
+            let (pmp_r, pmp_w, pmp_x) = if priv_lv == PrivilegedLevel::Machine && pmp_l == 0 {
+                (1, 1, 1)
+            } else {
+                (pmp_r, pmp_w, pmp_x)
+            };
             match pmp_a {
                 0b00 => (), // OFF: matches no address
                 0b01 => {
-- 
2.43.0


From f65ed744c96d0cbb3d19227ec91acd6ae652530d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:17 +0000
Subject: [PATCH 37/64] fix: PMP violations raise access faults, not page
 faults

---
 src/cpu/mmu/pmp.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index 81d7e48..a8b4e2f 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -17,19 +17,19 @@ impl Mmu {
             TransFor::Fetch | TransFor::Deleg => {
                 if pmp_x != 1 {
                     log::debugln!("invalid pmp_x: {:x}", pmpcfg);
-                    return Err(TrapCause::InstPageFault);
+                    return Err(TrapCause::InstAccessFault);
                 }
             }
             TransFor::Load => {
                 if pmp_r != 1 {
                     log::debugln!("invalid pmp_r: {:x}", pmpcfg);
-                    return Err(TrapCause::LoadPageFault);
+                    return Err(TrapCause::LoadAccessFault);
                 }
             }
             TransFor::StoreAMO => {
                 if pmp_w != 1 {
                     log::debugln!("invalid pmp_w: {:x}", pmpcfg);
-                    return Err(TrapCause::StoreAMOPageFault);
+                    return Err(TrapCause::StoreAMOAccessFault);
                 }
             }
         }
@@ -112,9 +112,9 @@ impl Mmu {
             Ok(addr)
         } else {
             Err(match purpose {
-                TransFor::Fetch | TransFor::Deleg => TrapCause::InstPageFault,
-                TransFor::Load => TrapCause::LoadPageFault,
-                TransFor::StoreAMO => TrapCause::StoreAMOPageFault,
+                TransFor::Fetch | TransFor::Deleg => TrapCause::InstAccessFault,
+                TransFor::Load => TrapCause::LoadAccessFault,
+                TransFor::StoreAMO => TrapCause::StoreAMOAccessFault,
             })
         }
     }
-- 
2.43.0


From 3b840513d956c867bea553ac81e9cac997168a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:19 +0000
Subject: [PATCH 38/64] fix: PMP also applies to S- and U-mode accesses without
 translation

---
 src/cpu/mmu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index 87ec06c..dc0f485 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -179,7 +179,7 @@ impl Mmu {
 
         match priv_lv {
             PrivilegedLevel::Supervisor | PrivilegedLevel::User => match self.trans_mode {
-                AddrTransMode::Bare => Ok(addr),
+                AddrTransMode::Bare => self.pmp(purpose, addr, priv_lv, csrs),
                 AddrTransMode::Sv32 | AddrTransMode::Sv39 => {
                     // Sv39: bits 63-39 must all be equal to bit 38
                     if matches!(self.trans_mode, AddrTransMode::Sv39)
-- 
2.43.0


From f4a00ccae34c039df1b6f3308113c9ed0c3d01fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 39/64] fix: Sv32 physical addresses keep all 34 bits

---
 src/cpu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu.rs b/src/cpu.rs
index bead22d..85ce731 100644
--- a/src/cpu.rs
+++ b/src/cpu.rs
@@ -156,7 +156,7 @@ impl Cpu {
         {
             Ok(vaddr) => {
                 if addr % align as u64 == 0 {
-                    Ok(vaddr.fix2regsz(&self.isa))
+                    Ok(vaddr)
                 } else {
                     let cause = match purpose {
                         TransFor::Fetch | TransFor::Deleg => TrapCause::InstAddrMisaligned,
-- 
2.43.0


From c7cd3eaf5661369063b765e498f0e9002cf26f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:00 +0000
Subject: [PATCH 40/64] fix: decoding an unknown funct7 of OP-32 no longer
 panics

---
 src/cpu/decode/inst_32.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cpu/decode/inst_32.rs b/src/cpu/decode/inst_32.rs
index dc6419f..8e2b42e 100644
--- a/src/cpu/decode/inst_32.rs
+++ b/src/cpu/decode/inst_32.rs
@@ -121,9 +121,8 @@ impl DecodeUtil for u32 {
                 _ => Extensions::BaseI,
             },
             0b0111011 => match funct7 {
-                0b0000000 | 0b0100000 => Extensions::BaseI,
                 0b0000001 => Extensions::M,
-                _ => unreachable!(),
+                _ => Extensions::BaseI,
             },
             0b1110011 => match funct3 {
                 0b000 => match funct7 {
-- 
2.43.0


From fbacefadf1c088f255c53c95197f8d9667c618e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:03 +0000
Subject: [PATCH 41/64] fix: OP and OP-32 encodings of other extensions are
 illegal, not the base instruction that shares funct3

---
 src/cpu/decode/inst_32/base_i.rs | 40 +++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/cpu/decode/inst_32/base_i.rs b/src/cpu/decode/inst_32/base_i.rs
index f609bc0..102df75 100644
--- a/src/cpu/decode/inst_32/base_i.rs
+++ b/src/cpu/decode/inst_32/base_i.rs
@@ -84,17 +84,35 @@ pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
                 0b0100000 => Ok(OpecodeKind::OP_SUB),
                 _ => illegal_inst_exception(),
             },
-            0b001 => Ok(OpecodeKind::OP_SLL),
-            0b010 => Ok(OpecodeKind::OP_SLT),
-            0b011 => Ok(OpecodeKind::OP_SLTU),
-            0b100 => Ok(OpecodeKind::OP_XOR),
+            0b001 => match funct7 {
+                0b0000000 => Ok(OpecodeKind::OP_SLL),
+                _ => illegal_inst_exception(),
+            },
+            0b010 => match funct7 {
+                0b0000000 => Ok(OpecodeKind::OP_SLT),
+                _ => illegal_inst_exception(),
+            },
+            0b011 => match funct7 {
+                0b0000000 => Ok(OpecodeKind::OP_SLTU),
+                _ => illegal_inst_exception(),
+            },
+            0b100 => match funct7 {
+                0b0000000 => Ok(OpecodeKind::OP_XOR),
+                _ => illegal_inst_exception(),
+            },
             0b101 => match funct7 {
                 0b0000000 => Ok(OpecodeKind::OP_SRL),
                 0b0100000 => Ok(OpecodeKind::OP_SRA),
                 _ => illegal_inst_exception(),
             },
-            0b110 => Ok(OpecodeKind::OP_OR),
-            0b111 => Ok(OpecodeKind::OP_AND),
+            0b110 => match funct7 {
+                0b0000000 => Ok(OpecodeKind::OP_OR),
+                _ => illegal_inst_exception(),
+            },
+            0b111 => match funct7 {
+                0b0000000 => Ok(OpecodeKind::OP_AND),
+                _ => illegal_inst_exception(),
+            },
             _ => illegal_inst_exception(),
         },
         0b0001111 => Ok(OpecodeKind::OP_FENCE),
@@ -111,7 +129,10 @@ pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
         },
         0b0011011 => match funct3 {
             0b000 => only_rv64(OpecodeKind::OP_ADDIW, isa),
-            0b001 => only_rv64(OpecodeKind::OP_SLLIW, isa),
+            0b001 => match funct7 {
+                0b0000000 => only_rv64(OpecodeKind::OP_SLLIW, isa),
+                _ => illegal_inst_exception(),
+            },
             0b101 => match funct7 {
                 0b0000000 => only_rv64(OpecodeKind::OP_SRLIW, isa),
                 0b0100000 => only_rv64(OpecodeKind::OP_SRAIW, isa),
@@ -125,7 +146,10 @@ pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
                 0b0100000 => only_rv64(OpecodeKind::OP_SUBW, isa),
                 _ => illegal_inst_exception(),
             },
-            0b001 => only_rv64(OpecodeKind::OP_SLLW, isa),
+            0b001 => match funct7 {
+                0b0000000 => only_rv64(OpecodeKind::OP_SLLW, isa),
+                _ => illegal_inst_exception(),
+            },
             0b101 => match funct7 {
                 0b0000000 => only_rv64(OpecodeKind::OP_SRLW, isa),
                 0b0100000 => only_rv64(OpecodeKind::OP_SRAW, isa),
-- 
2.43.0


From 491d00c892fac2c6fea71623d86247fa2049d23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:21 +0000
Subject: [PATCH 42/64] fix: an access that runs over the end of a device
 raises an access fault instead of a panic

---
 src/bus.rs | 114 +++++++++++++++++++++++++++--------------------------
 1 file changed, 59 insertions(+), 55 deletions(-)

diff --git a/src/bus.rs b/src/bus.rs
index c612801..737a3ff 100644
--- a/src/bus.rs
+++ b/src/bus.rs
@@ -42,15 +42,15 @@ impl Bus {
 
     // store
     pub fn store8(&mut self, addr: u64, data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
-        if self.mrom.in_range(addr) {
+        if self.mrom.covers(addr, 1) {
             self.mrom.store8(addr, data)
-        } else if self.clint.in_range(addr) {
+        } else if self.clint.covers(addr, 1) {
             self.clint.store8(addr, data)
-        } else if self.dram.in_range(addr) {
+        } else if self.dram.covers(addr, 1) {
             self.dram.store8(addr, data)
-        } else if self.uart.in_range(addr) {
+        } else if self.uart.covers(addr, 1) {
             self.uart.store8_with_plic(addr, data, &mut self.plic)
-        } else if self.plic.in_range(addr) {
+        } else if self.plic.covers(addr, 1) {
             self.plic.store8(addr, data)
         } else {
             Err((
@@ -66,15 +66,15 @@ impl Bus {
         addr: u64,
         data: u64,
     ) -> Result<(), (Option<u64>, TrapCause, String)> {
-        if self.mrom.in_range(addr) {
+        if self.mrom.covers(addr, 2) {
             self.mrom.store16(addr, data)
-        } else if self.clint.in_range(addr) {
+        } else if self.clint.covers(addr, 2) {
             self.clint.store16(addr, data)
-        } else if self.dram.in_range(addr) {
+        } else if self.dram.covers(addr, 2) {
             self.dram.store16(addr, data)
-        } else if self.uart.in_range(addr) {
+        } else if self.uart.covers(addr, 2) {
             self.uart.store16(addr, data)
-        } else if self.plic.in_range(addr) {
+        } else if self.plic.covers(addr, 2) {
             self.plic.store16(addr, data)
         } else {
             Err((
@@ -90,15 +90,15 @@ impl Bus {
         addr: u64,
         data: u64,
     ) -> Result<(), (Option<u64>, TrapCause, String)> {
-        if self.mrom.in_range(addr) {
+        if self.mrom.covers(addr, 4) {
             self.mrom.store32(addr, data)
-        } else if self.clint.in_range(addr) {
+        } else if self.clint.covers(addr, 4) {
             self.clint.store32(addr, data)
-        } else if self.dram.in_range(addr) {
+        } else if self.dram.covers(addr, 4) {
             self.dram.store32(addr, data)
-        } else if self.uart.in_range(addr) {
+        } else if self.uart.covers(addr, 4) {
             self.uart.store32(addr, data)
-        } else if self.plic.in_range(addr) {
+        } else if self.plic.covers(addr, 4) {
             self.plic.store32(addr, data)
         } else {
             Err((
@@ -114,15 +114,15 @@ impl Bus {
         addr: u64,
         data: u64,
     ) -> Result<(), (Option<u64>, TrapCause, String)> {
-        if self.mrom.in_range(addr) {
+        if self.mrom.covers(addr, 8) {
             self.mrom.store64(addr, data)
-        } else if self.clint.in_range(addr) {
+        } else if self.clint.covers(addr, 8) {
             self.clint.store64(addr, data)
-        } else if self.dram.in_range(addr) {
+        } else if self.dram.covers(addr, 8) {
             self.dram.store64(addr, data)
-        } else if self.uart.in_range(addr) {
+        } else if self.uart.covers(addr, 8) {
             self.uart.store64(addr, data)
-        } else if self.plic.in_range(addr) {
+        } else if self.plic.covers(addr, 8) {
             self.plic.store64(addr, data)
         } else {
             Err((
@@ -135,15 +135,15 @@ impl Bus {
 
     // load
     pub fn load8(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
-        if self.mrom.in_range(addr) {
+        if self.mrom.covers(addr, 1) {
             self.mrom.load8(addr)
-        } else if self.clint.in_range(addr) {
+        } else if self.clint.covers(addr, 1) {
             self.clint.load8(addr)
-        } else if self.dram.in_range(addr) {
+        } else if self.dram.covers(addr, 1) {
             self.dram.load8(addr)
-        } else if self.uart.in_range(addr) {
+        } else if self.uart.covers(addr, 1) {
             self.uart.load8_with_plic(addr, &mut self.plic)
-        } else if self.plic.in_range(addr) {
+        } else if self.plic.covers(addr, 1) {
             self.plic.load8(addr)
         } else {
             Err((
@@ -155,15 +155,15 @@ impl Bus {
     }
 
     pub fn load16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
-        if self.mrom.in_range(addr) {
+        if self.mrom.covers(addr, 2) {
             self.mrom.load16(addr)
-        } else if self.clint.in_range(addr) {
+        } else if self.clint.covers(addr, 2) {
             self.clint.load16(addr)
-        } else if self.dram.in_range(addr) {
+        } else if self.dram.covers(addr, 2) {
             self.dram.load16(addr)
-        } else if self.uart.in_range(addr) {
+        } else if self.uart.covers(addr, 2) {
             self.uart.load16(addr)
-        } else if self.plic.in_range(addr) {
+        } else if self.plic.covers(addr, 2) {
             self.plic.load16(addr)
         } else {
             Err((
@@ -175,15 +175,15 @@ impl Bus {
     }
 
     pub fn load32(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
-        if self.mrom.in_range(addr) {
+        if self.mrom.covers(addr, 4) {
             self.mrom.load32(addr)
-        } else if self.clint.in_range(addr) {
+        } else if self.clint.covers(addr, 4) {
             self.clint.load32(addr)
-        } else if self.dram.in_range(addr) {
+        } else if self.dram.covers(addr, 4) {
             self.dram.load32(addr)
-        } else if self.uart.in_range(addr) {
+        } else if self.uart.covers(addr, 4) {
             self.uart.load32(addr)
-        } else if self.plic.in_range(addr) {
+        } else if self.plic.covers(addr, 4) {
             self.plic.load32(addr)
         } else {
             Err((
@@ -195,15 +195,15 @@ impl Bus {
     }
 
     pub fn load64(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
-        if self.mrom.in_range(addr) {
+        if self.mrom.covers(addr, 8) {
             self.mrom.load64(addr)
-        } else if self.clint.in_range(addr) {
+        } else if self.clint.covers(addr, 8) {
             self.clint.load64(addr)
-        } else if self.dram.in_range(addr) {
+        } else if self.dram.covers(addr, 8) {
             self.dram.load64(addr)
-        } else if self.uart.in_range(addr) {
+        } else if self.uart.covers(addr, 8) {
             self.uart.load64(addr)
-        } else if self.plic.in_range(addr) {
+        } else if self.plic.covers(addr, 8) {
             self.plic.load64(addr)
         } else {
             Err((
@@ -215,15 +215,15 @@ impl Bus {
     }
 
     pub fn load_u8(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
-        if self.mrom.in_range(addr) {
+        if self.mrom.covers(addr, 1) {
             self.mrom.load_u8(addr)
-        } else if self.clint.in_range(addr) {
+        } else if self.clint.covers(addr, 1) {
             self.clint.load_u8(addr)
-        } else if self.dram.in_range(addr) {
+        } else if self.dram.covers(addr, 1) {
             self.dram.load_u8(addr)
-        } else if self.uart.in_range(addr) {
+        } else if self.uart.covers(addr, 1) {
             self.uart.load_u8(addr)
-        } else if self.plic.in_range(addr) {
+        } else if self.plic.covers(addr, 1) {
             self.plic.load_u8(addr)
         } else {
             Err((
@@ -235,15 +235,15 @@ impl Bus {
     }
 
     pub fn load_u16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
-        if self.mrom.in_range(addr) {
+        if self.mrom.covers(addr, 2) {
             self.mrom.load_u16(addr)
-        } else if self.clint.in_range(addr) {
+        } else if self.clint.covers(addr, 2) {
             self.clint.load_u16(addr)
-        } else if self.dram.in_range(addr) {
+        } else if self.dram.covers(addr, 2) {
             self.dram.load_u16(addr)
-        } else if self.uart.in_range(addr) {
+        } else if self.uart.covers(addr, 2) {
             self.uart.load_u16(addr)
-        } else if self.plic.in_range(addr) {
+        } else if self.plic.covers(addr, 2) {
             self.plic.load_u16(addr)
         } else {
             Err((
@@ -255,15 +255,15 @@ impl Bus {
     }
 
     pub fn load_u32(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
-        if self.mrom.in_range(addr) {
+        if self.mrom.covers(addr, 4) {
             self.mrom.load_u32(addr)
-        } else if self.clint.in_range(addr) {
+        } else if self.clint.covers(addr, 4) {
             self.clint.load_u32(addr)
-        } else if self.dram.in_range(addr) {
+        } else if self.dram.covers(addr, 4) {
             self.dram.load_u32(addr)
-        } else if self.uart.in_range(addr) {
+        } else if self.uart.covers(addr, 4) {
             self.uart.load_u32(addr)
-        } else if self.plic.in_range(addr) {
+        } else if self.plic.covers(addr, 4) {
             self.plic.load_u32(addr)
         } else {
             Err((
@@ -277,6 +277,10 @@ impl Bus {
 
 pub trait Device {
     fn in_range(&self, addr: u64) -> bool;
+    // are all of the len bytes from addr in device address space
+    fn covers(&self, addr: u64, len: u64) -> bool {
+        self.in_range(addr) && self.in_range(addr + (len - 1))
+    }
     fn addr2index(&self, addr: u64) -> usize;
     fn store8(&mut self, addr: u64, data: u64) -> Result<(), (Option<u64>, TrapCause, String)>;
     fn store16(&mut self, addr: u64, data: u64) -> Result<(), (Option<u64>, TrapCause, String)>;
-- 
2.43.0


From 3f4cbf89c2dc1569e144b55b11ce29421783a8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:23 +0000
Subject: [PATCH 43/64] fix: accesses a device refuses raise access faults, not
 page faults

---
 src/bus/clint.rs | 14 +++++++-------
 src/bus/mrom.rs  |  8 ++++----
 src/bus/uart.rs  | 16 ++++++++--------
 3 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/bus/clint.rs b/src/bus/clint.rs
index 47939ac..3c5cdbf 100644
--- a/src/bus/clint.rs
+++ b/src/bus/clint.rs
@@ -45,7 +45,7 @@ impl Device for Clint {
     fn store8(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "clint only allows load/store32 but try store8".to_string(),
         ))
     }
@@ -53,7 +53,7 @@ impl Device for Clint {
     fn store16(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "clint only allows load/store32 but try store16".to_string(),
         ))
     }
@@ -84,7 +84,7 @@ impl Device for Clint {
     fn load8(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load8".to_string(),
         ))
     }
@@ -92,7 +92,7 @@ impl Device for Clint {
     fn load16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load16".to_string(),
         ))
     }
@@ -119,7 +119,7 @@ impl Device for Clint {
     fn load_u8(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load_u8".to_string(),
         ))
     }
@@ -127,7 +127,7 @@ impl Device for Clint {
     fn load_u16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load_u16".to_string(),
         ))
     }
@@ -135,7 +135,7 @@ impl Device for Clint {
     fn load_u32(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load_u32".to_string(),
         ))
     }
diff --git a/src/bus/mrom.rs b/src/bus/mrom.rs
index a5a475f..333c647 100644
--- a/src/bus/mrom.rs
+++ b/src/bus/mrom.rs
@@ -64,7 +64,7 @@ impl Device for Mrom {
     fn store8(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             format!("mrom is read only: {addr:x}"),
         ))
     }
@@ -72,7 +72,7 @@ impl Device for Mrom {
     fn store16(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             format!("mrom is read only: {addr:x}"),
         ))
     }
@@ -80,7 +80,7 @@ impl Device for Mrom {
     fn store32(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             format!("mrom is read only: {addr:x}"),
         ))
     }
@@ -88,7 +88,7 @@ impl Device for Mrom {
     fn store64(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             format!("mrom is read only: {addr:x}"),
         ))
     }
diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 5c7d4ce..c54ca27 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -271,7 +271,7 @@ impl Device for Uart {
     fn store16(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "uart only allows load/store8 but try store16".to_string(),
         ))
     }
@@ -279,7 +279,7 @@ impl Device for Uart {
     fn store32(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "uart only allows load/store8 but try store32".to_string(),
         ))
     }
@@ -287,7 +287,7 @@ impl Device for Uart {
     fn store64(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "uart only allows load/store8 but try store64".to_string(),
         ))
     }
@@ -300,7 +300,7 @@ impl Device for Uart {
     fn load16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load16".to_string(),
         ))
     }
@@ -308,7 +308,7 @@ impl Device for Uart {
     fn load32(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load32".to_string(),
         ))
     }
@@ -316,7 +316,7 @@ impl Device for Uart {
     fn load64(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load64".to_string(),
         ))
     }
@@ -329,7 +329,7 @@ impl Device for Uart {
     fn load_u16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load_u16".to_string(),
         ))
     }
@@ -337,7 +337,7 @@ impl Device for Uart {
     fn load_u32(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load_u32".to_string(),
         ))
     }
-- 
2.43.0


From 129ccc581c01ca1ecf823629361021b99d7de835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:02 +0000
Subject: [PATCH 44/64] fix: 64-bit PLIC accesses carry both 32-bit halves

---
 src/bus/plic.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index e072b86..fce53e8 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -332,8 +332,8 @@ impl Device for Plic {
     }
 
     fn store64(&mut self, addr: u64, data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
-        self.store32(addr, data & 0xffff)?;
-        self.store32(addr + 4, data >> 32 & 0xffff)
+        self.store32(addr, data & 0xffff_ffff)?;
+        self.store32(addr + 4, data >> 32)
     }
 
     // load
@@ -391,8 +391,9 @@ impl Device for Plic {
     }
 
     fn load64(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
-        self.load32(addr)?;
-        self.load32(addr + 4)
+        let lower = self.load32(addr)?;
+        let upper = self.load32(addr + 4)?;
+        Ok(upper << 32 | lower)
     }
 
     fn load_u8(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
-- 
2.43.0


From 8df69f875be5d0791b77638786c6e4e52f50e2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:04 +0000
Subject: [PATCH 45/64] fix: reserved PLIC context registers read as zero and
 ignore writes instead of panicking

---
 src/bus/plic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index fce53e8..93d3c0f 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -200,7 +200,7 @@ impl Plic {
         match offset {
             CONTEXT_THRESHOLD => self.contexts[context_id].priority_thresould as u32,
             CONTEXT_CLAIM => self.context_claim(context_id),
-            _ => unreachable!(),
+            _ => 0, // reserved
         }
     }
 
@@ -223,7 +223,7 @@ impl Plic {
                     self.context_update(context_id);
                 }
             }
-            _ => unreachable!("offset: {:#x}", offset),
+            _ => (), // reserved
         }
     }
 
-- 
2.43.0


From bdbbec4712505409831ea96eb196b1e273fb9d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 46/64] fix: the PLIC raises no interrupt for sources whose
 priority does not exceed the threshold

---
 src/bus/plic.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 93d3c0f..2764e37 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -112,7 +112,9 @@ impl Plic {
             PrivilegedLevel::Supervisor => MIP_SEIP_MASK,
             _ => unreachable!(),
         };
-        self.mip_value = if best_id == 0 {
+        let context = &self.contexts[context_id];
+        let best_priority = context.pending_priority[best_id as usize];
+        self.mip_value = if best_id == 0 || best_priority <= context.priority_thresould {
             0
         } else {
             match self.contexts[context_id].context_priv {
-- 
2.43.0


From b0d7114a2bf7912a5dd91a24dd299c839839498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:50 +0000
Subject: [PATCH 47/64] fix: the UART transmits the low byte of the stored
 value and never panics

---
 src/bus/uart.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index c54ca27..19558a1 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -201,7 +201,7 @@ impl Uart {
                     return Ok(());
                 }
 
-                self.tx_byte(char::from_u32(data as u32).unwrap())
+                self.tx_byte(data as u8 as char)
             }
             IER => {
                 if self.uart[LCR] & LcrMask::DLAB as u8 == 0 {
-- 
2.43.0


From dbc25f0b0167d4fcba2ec3a600831faea469dcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 48/64] fix: LBU reads the UART registers as LB does

---
 src/bus.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bus.rs b/src/bus.rs
index 737a3ff..55deb1d 100644
--- a/src/bus.rs
+++ b/src/bus.rs
@@ -214,7 +214,7 @@ impl Bus {
         }
     }
 
-    pub fn load_u8(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
+    pub fn load_u8(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         if self.mrom.covers(addr, 1) {
             self.mrom.load_u8(addr)
         } else if self.clint.covers(addr, 1) {
@@ -222,7 +222,7 @@ impl Bus {
         } else if self.dram.covers(addr, 1) {
             self.dram.load_u8(addr)
         } else if self.uart.covers(addr, 1) {
-            self.uart.load_u8(addr)
+            Ok(self.uart.load8_with_plic(addr, &mut self.plic)? & 0xFF)
         } else if self.plic.covers(addr, 1) {
             self.plic.load_u8(addr)
         } else {
-- 
2.43.0


From 0e7c19c157d4a7478a99253d76a9a3e5be47b1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:55 +0000
Subject: [PATCH 49/64] fix: the UART FIFOs are cleared through FCR, not by
 bits of LCR

---
 src/bus/uart.rs    | 10 ++++++++++
 src/bus/uart/io.rs | 13 +------------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 19558a1..1f5bf1d 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -210,6 +210,16 @@ impl Uart {
                     self.dlm = data as u8;
                 }
             }
+            FCR => {
+                if data as u8 & FcrMask::CLEAR_RCVR as u8 != 0 {
+                    self.rx_queue.clear();
+                    self.uart[UartRegister::LSR as usize] &= !(LsrMask::DR as u8);
+                }
+                if data as u8 & FcrMask::CLEAR_XMIT as u8 != 0 {
+                    self.uart[UartRegister::LSR as usize] |=
+                        LsrMask::TEMT as u8 | LsrMask::THRE as u8;
+                }
+            }
             _ => self.uart[index] = (data & 0xFF) as u8,
         }
 
diff --git a/src/bus/uart/io.rs b/src/bus/uart/io.rs
index ece61f3..4ef3931 100644
--- a/src/bus/uart/io.rs
+++ b/src/bus/uart/io.rs
@@ -1,4 +1,4 @@
-use super::{FcrMask, IerMask, IirMask, LsrMask, Uart, UartRegister};
+use super::{IerMask, IirMask, LsrMask, Uart, UartRegister};
 use crate::bus::Plic;
 use std::io;
 use std::io::Write;
@@ -7,17 +7,6 @@ impl Uart {
     pub fn update_interrupt(&mut self, plic: &mut Plic) {
         const UART_INTERRUPT_ID: u32 = 1;
         let mut interrupts = 0;
-        if self.uart[UartRegister::LCR as usize] & FcrMask::CLEAR_RCVR as u8 != 0 {
-            self.uart[UartRegister::LCR as usize] &= !(FcrMask::CLEAR_RCVR as u8);
-            self.rx_queue.clear();
-            self.uart[UartRegister::LSR as usize] &= !(LsrMask::DR as u8);
-        }
-
-        if self.uart[UartRegister::LCR as usize] & FcrMask::CLEAR_XMIT as u8 != 0 {
-            self.uart[UartRegister::LCR as usize] &= !(FcrMask::CLEAR_XMIT as u8);
-            self.uart[UartRegister::LSR as usize] |= LsrMask::TEMT as u8 | LsrMask::THRE as u8;
-        }
-
         if self.uart[UartRegister::IER as usize] & IerMask::RDI as u8 != 0
             && self.uart[UartRegister::LSR as usize] & LsrMask::DR as u8 != 0
         {
-- 
2.43.0


From ca231ced5b36b0f2794fabda9555db2485d1b9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 50/64] fix: empty console input does not announce received
 data

---
 src/bus/uart.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 1f5bf1d..e1eeab8 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -251,7 +251,9 @@ impl Uart {
                 for c in input.chars() {
                     self.rx_queue.push_back(c as u8);
                 }
-                self.uart[UartRegister::LSR as usize] |= LsrMask::DR as u8;
+                if !self.rx_queue.is_empty() {
+                    self.uart[UartRegister::LSR as usize] |= LsrMask::DR as u8;
+                }
                 self.update_interrupt(plic);
             }
             Err(_) => {
-- 
2.43.0


From 726d93e00289ed58121e5231d415257f404b9c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 51/64] fix: an AMO whose store faults leaves rd alone

---
 src/cpu/execution/inst_32/a_extension.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/execution/inst_32/a_extension.rs b/src/cpu/execution/inst_32/a_extension.rs
index 348c87d..16fc423 100644
--- a/src/cpu/execution/inst_32/a_extension.rs
+++ b/src/cpu/execution/inst_32/a_extension.rs
@@ -13,9 +13,9 @@ fn atomic_memory_operations_32<F: Fn(u64, u64) -> u64>(
     )?;
     let loaded_data = cpu.bus.load32(amo_addr)?;
     let rs2_data = cpu.regs.read(inst.rs2);
-    cpu.regs.write(inst.rd, loaded_data);
     cpu.bus
         .store32(amo_addr, operation(loaded_data, rs2_data))?;
+    cpu.regs.write(inst.rd, loaded_data);
 
     Ok(())
 }
@@ -32,9 +32,9 @@ fn atomic_memory_operations_64<F: Fn(u64, u64) -> u64>(
     )?;
     let loaded_data = cpu.bus.load64(amo_addr)?;
     let rs2_data = cpu.regs.read(inst.rs2);
-    cpu.regs.write(inst.rd, loaded_data);
     cpu.bus
         .store64(amo_addr, operation(loaded_data, rs2_data))?;
+    cpu.regs.write(inst.rd, loaded_data);
 
     Ok(())
 }
-- 
2.43.0


From 6cf0111bfb1a444c2ccae6b19e34109f6dab8a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 52/64] fix: an AMO to an address nothing answers at raises a
 store/AMO access fault

---
 src/cpu/execution/inst_32/a_extension.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cpu/execution/inst_32/a_extension.rs b/src/cpu/execution/inst_32/a_extension.rs
index 16fc423..745aff8 100644
--- a/src/cpu/execution/inst_32/a_extension.rs
+++ b/src/cpu/execution/inst_32/a_extension.rs
@@ -11,7 +11,10 @@ fn atomic_memory_operations_32<F: Fn(u64, u64) -> u64>(
         TransAlign::Size32,
         cpu.regs.read(inst.rs1),
     )?;
-    let loaded_data = cpu.bus.load32(amo_addr)?;
+    let loaded_data = cpu
+        .bus
+        .load32(amo_addr)
+        .map_err(|(addr, _, msg)| (addr, TrapCause::StoreAMOAccessFault, msg))?;
     let rs2_data = cpu.regs.read(inst.rs2);
     cpu.bus
         .store32(amo_addr, operation(loaded_data, rs2_data))?;
@@ -30,7 +33,10 @@ fn atomic_memory_operations_64<F: Fn(u64, u64) -> u64>(
         TransAlign::Size64,
         cpu.regs.read(inst.rs1),
     )?;
-    let loaded_data = cpu.bus.load64(amo_addr)?;
+    let loaded_data = cpu
+        .bus
+        .load64(amo_addr)
+        .map_err(|(addr, _, msg)| (addr, TrapCause::StoreAMOAccessFault, msg))?;
     let rs2_data = cpu.regs.read(inst.rs2);
     cpu.bus
         .store64(amo_addr, operation(loaded_data, rs2_data))?;
-- 
2.43.0


From 8ff65b43cb2512179b1de7ab8cd4d794fc0a4923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:33 +0000
Subject: [PATCH 53/64] fix: a failed SC invalidates the reservation

---
 src/cpu/execution/inst_32/a_extension.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cpu/execution/inst_32/a_extension.rs b/src/cpu/execution/inst_32/a_extension.rs
index 745aff8..583ab7c 100644
--- a/src/cpu/execution/inst_32/a_extension.rs
+++ b/src/cpu/execution/inst_32/a_extension.rs
@@ -70,6 +70,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 cpu.reservation_set = None;
                 cpu.regs.write(inst.rd, 0);
             } else {
+                cpu.reservation_set = None;
                 cpu.regs.write(inst.rd, 1);
             }
         }
@@ -139,6 +140,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 cpu.reservation_set = None;
                 cpu.regs.write(inst.rd, 0);
             } else {
+                cpu.reservation_set = None;
                 cpu.regs.write(inst.rd, 1);
             }
         }
-- 
2.43.0


From 1492040118c7de470d4ff4da7e6944dbaa5e1405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:09 +0000
Subject: [PATCH 54/64] fix: pwrite reports errno like every other system call

---
 src/fesvr/syscall.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index e225cfb..b955862 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -138,7 +138,7 @@ impl FrontendServer {
             )
         };
 
-        wrote_len as i64
+        sysret_errno(wrote_len as i64)
     }
 
     pub fn fstatat(
-- 
2.43.0


From f57ac64604fc378abe88c490f58b53b415ff1c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:12 +0000
Subject: [PATCH 55/64] fix: uid, gid and blksize are at their places in the
 guest's stat

---
 src/fesvr/syscall.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index b955862..16af182 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -168,11 +168,11 @@ impl FrontendServer {
                     buf.st_dev,
                     buf.st_ino,
                     buf.st_nlink << 32 | buf.st_mode as u64,
-                    (buf.st_uid as u64) << 32 | buf.st_gid as u64,
+                    (buf.st_gid as u64) << 32 | buf.st_uid as u64,
                     buf.st_rdev,
                     PADDING,
                     buf.st_size as u64,
-                    (buf.st_blksize as u32 as u64) << 32 | PADDING,
+                    PADDING << 32 | buf.st_blksize as u32 as u64,
                     buf.st_blocks as u64,
                     buf.st_atime as u64,
                     PADDING,
@@ -210,11 +210,11 @@ impl FrontendServer {
                     buf.st_dev,
                     buf.st_ino,
                     buf.st_nlink << 32 | buf.st_mode as u64,
-                    (buf.st_uid as u64) << 32 | buf.st_gid as u64,
+                    (buf.st_gid as u64) << 32 | buf.st_uid as u64,
                     buf.st_rdev,
                     PADDING,
                     buf.st_size as u64,
-                    (buf.st_blksize as u32 as u64) << 32 | PADDING,
+                    PADDING << 32 | buf.st_blksize as u32 as u64,
                     buf.st_blocks as u64,
                     buf.st_atime as u64,
                     PADDING,
-- 
2.43.0


From 01a3d09f180807c2e37e578c5d0f4bdd1e137f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:14 +0000
Subject: [PATCH 56/64] fix: a failed fstat or fstatat leaves guest memory
 alone

---
 src/fesvr/syscall.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index 16af182..f985072 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -186,7 +186,7 @@ impl FrontendServer {
         };
 
         let ret = sysret_errno(ret.into());
-        if ret != -1 {
+        if ret >= 0 {
             let rbuf = rbuf
                 .iter()
                 .flat_map(|w| w.to_le_bytes().to_vec())
@@ -228,7 +228,7 @@ impl FrontendServer {
         };
 
         let ret = sysret_errno(ret as i64);
-        if ret != -1 {
+        if ret >= 0 {
             let rbuf = rbuf
                 .iter()
                 .flat_map(|w| w.to_le_bytes().to_vec())
-- 
2.43.0


From b182b37aa48acd2e0070e961644627be0ee3cfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:17 +0000
Subject: [PATCH 57/64] fix: openat and fstatat resolve a directory descriptor
 like any other descriptor

---
 src/fesvr.rs         | 8 ++++++++
 src/fesvr/syscall.rs | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fesvr.rs b/src/fesvr.rs
index b5c64ef..c794cc3 100644
--- a/src/fesvr.rs
+++ b/src/fesvr.rs
@@ -34,6 +34,14 @@ impl FrontendServer {
             self.fd_table[fd as usize].unwrap_or(u64::MAX) as i64
         }
     }
+
+    pub fn dirfd_lookup(&self, dirfd: u64) -> i64 {
+        if dirfd as i32 == libc::AT_FDCWD {
+            libc::AT_FDCWD as i64
+        } else {
+            self.fd_lookup(dirfd)
+        }
+    }
 }
 
 impl Emulator {
diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index f985072..d1aad20 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -44,7 +44,7 @@ impl FrontendServer {
         let name: &str = std::str::from_utf8(name.split_last().unwrap().1).unwrap();
         let fd = sysret_errno(unsafe {
             libc::openat(
-                dirfd as i32,
+                self.dirfd_lookup(dirfd) as i32,
                 name.as_ptr() as *const i8,
                 flags as i32,
                 mode as i32,
@@ -157,7 +157,7 @@ impl FrontendServer {
             const PADDING: u64 = 0;
             let mut buf: libc::stat = std::mem::zeroed();
             let ret = libc::fstatat(
-                dirfd as i32,
+                self.dirfd_lookup(dirfd) as i32,
                 name.as_ptr() as *const i8,
                 &mut buf as *mut libc::stat,
                 flags as i32,
-- 
2.43.0


From 3860c85a270e5aa022ba87f80953f1afc8b7d954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:41 +0000
Subject: [PATCH 58/64] fix: p_memsz and p_align are at their places in the
 ELF64 program header

The segment dump lists what the file holds (p_filesz): p_memsz may go past the end of the file.
---
 src/elfload/elf_32/program_header.rs | 2 +-
 src/elfload/elf_64/program_header.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/elfload/elf_32/program_header.rs b/src/elfload/elf_32/program_header.rs
index 1266692..8a9466b 100644
--- a/src/elfload/elf_32/program_header.rs
+++ b/src/elfload/elf_32/program_header.rs
@@ -65,7 +65,7 @@ impl ProgramHeader for ProgramHeader32 {
     }
 
     fn dump(&self, mmap: &[u8]) {
-        for (block, dump_part) in (self.p_offset..self.p_offset + self.p_memsz)
+        for (block, dump_part) in (self.p_offset..self.p_offset + self.p_filesz)
             .step_by(4)
             .enumerate()
         {
diff --git a/src/elfload/elf_64/program_header.rs b/src/elfload/elf_64/program_header.rs
index c1e6753..c365b68 100644
--- a/src/elfload/elf_64/program_header.rs
+++ b/src/elfload/elf_64/program_header.rs
@@ -42,8 +42,8 @@ impl ProgramHeader64 {
                 p_vaddr: get_u64(mmap, segment_start + 16),
                 p_paddr: get_u64(mmap, segment_start + 24),
                 p_filesz: get_u64(mmap, segment_start + 32),
-                p_memsz: get_u64(mmap, segment_start + 48),
-                p_align: get_u64(mmap, segment_start + 56),
+                p_memsz: get_u64(mmap, segment_start + 40),
+                p_align: get_u64(mmap, segment_start + 48),
             }));
         }
 
@@ -65,7 +65,7 @@ impl ProgramHeader for ProgramHeader64 {
     }
 
     fn dump(&self, mmap: &[u8]) {
-        for (block, dump_part) in (self.p_offset..self.p_offset + self.p_memsz)
+        for (block, dump_part) in (self.p_offset..self.p_offset + self.p_filesz)
             .step_by(4)
             .enumerate()
         {
-- 
2.43.0


From ca99e24f68b2d675b5b572ab150290c4b267304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:43 +0000
Subject: [PATCH 59/64] fix: sh_entsize is at its place in the ELF32 section
 header

---
 src/elfload/elf_32/section_header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elfload/elf_32/section_header.rs b/src/elfload/elf_32/section_header.rs
index 3620bff..c69a7fc 100644
--- a/src/elfload/elf_32/section_header.rs
+++ b/src/elfload/elf_32/section_header.rs
@@ -36,7 +36,7 @@ impl SectionHeader32 {
                 sh_link: get_u32(mmap, section_head + 24),
                 sh_info: get_u32(mmap, section_head + 28),
                 sh_addralign: get_u32(mmap, section_head + 32),
-                sh_entsize: get_u32(mmap, section_head + 34),
+                sh_entsize: get_u32(mmap, section_head + 36),
             }));
         }
 
-- 
2.43.0


From 774b95f9c966336441114bdd852e624a5d1fc90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:58 +0000
Subject: [PATCH 60/64] fix: ELF header table offsets do not wrap at 16 bits

---
 src/elfload/elf_32/program_header.rs | 2 +-
 src/elfload/elf_32/section_header.rs | 4 ++--
 src/elfload/elf_64/program_header.rs | 2 +-
 src/elfload/elf_64/section_header.rs | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/elfload/elf_32/program_header.rs b/src/elfload/elf_32/program_header.rs
index 8a9466b..4a5659d 100644
--- a/src/elfload/elf_32/program_header.rs
+++ b/src/elfload/elf_32/program_header.rs
@@ -33,7 +33,7 @@ impl ProgramHeader32 {
 
         for segment_num in 0..elf_header.e_phnum {
             let segment_start: usize =
-                (elf_header.e_phoff + (elf_header.e_phentsize * segment_num) as u32) as usize;
+                (elf_header.e_phoff + elf_header.e_phentsize as u32 * segment_num as u32) as usize;
 
             new_prog.push(Box::new(ProgramHeader32 {
                 p_type: get_u32(mmap, segment_start),
diff --git a/src/elfload/elf_32/section_header.rs b/src/elfload/elf_32/section_header.rs
index c69a7fc..e689aa2 100644
--- a/src/elfload/elf_32/section_header.rs
+++ b/src/elfload/elf_32/section_header.rs
@@ -19,12 +19,12 @@ impl SectionHeader32 {
     pub fn new_sect(mmap: &[u8], elf_header: &ElfHeader32) -> Vec<Box<dyn SectionHeader>> {
         let mut new_sect: Vec<Box<dyn SectionHeader>> = Vec::new();
         let name_table =
-            elf_header.e_shoff + (elf_header.e_shentsize * elf_header.e_shstrndx) as u32;
+            elf_header.e_shoff + elf_header.e_shentsize as u32 * elf_header.e_shstrndx as u32;
         let name_table_off: usize = get_u32(mmap, (name_table as usize) + 16) as usize;
 
         for section_num in 0..elf_header.e_shnum {
             let section_head: usize =
-                (elf_header.e_shoff + (elf_header.e_shentsize * section_num) as u32) as usize;
+                (elf_header.e_shoff + elf_header.e_shentsize as u32 * section_num as u32) as usize;
 
             new_sect.push(Box::new(SectionHeader32 {
                 sh_name: SectionHeader32::get_sh_name(mmap, section_head, name_table_off),
diff --git a/src/elfload/elf_64/program_header.rs b/src/elfload/elf_64/program_header.rs
index c365b68..58ae9d5 100644
--- a/src/elfload/elf_64/program_header.rs
+++ b/src/elfload/elf_64/program_header.rs
@@ -33,7 +33,7 @@ impl ProgramHeader64 {
 
         for segment_num in 0..elf_header.e_phnum {
             let segment_start: usize =
-                (elf_header.e_phoff + (elf_header.e_phentsize * segment_num) as u64) as usize;
+                (elf_header.e_phoff + elf_header.e_phentsize as u64 * segment_num as u64) as usize;
 
             new_prog.push(Box::new(ProgramHeader64 {
                 p_type: get_u32(mmap, segment_start),
diff --git a/src/elfload/elf_64/section_header.rs b/src/elfload/elf_64/section_header.rs
index c957e30..876a284 100644
--- a/src/elfload/elf_64/section_header.rs
+++ b/src/elfload/elf_64/section_header.rs
@@ -20,12 +20,12 @@ impl SectionHeader64 {
     pub fn new_sect(mmap: &[u8], elf_header: &ElfHeader64) -> Vec<Box<dyn SectionHeader>> {
         let mut new_sect: Vec<Box<dyn SectionHeader>> = Vec::new();
         let name_table =
-            elf_header.e_shoff + (elf_header.e_shentsize * elf_header.e_shstrndx) as u64;
+            elf_header.e_shoff + elf_header.e_shentsize as u64 * elf_header.e_shstrndx as u64;
         let name_table_off: usize = get_u64(mmap, (name_table as usize) + 24) as usize;
 
         for section_num in 0..elf_header.e_shnum {
             let section_head: usize =
-                (elf_header.e_shoff + (elf_header.e_shentsize * section_num) as u64) as usize;
+                (elf_header.e_shoff + elf_header.e_shentsize as u64 * section_num as u64) as usize;
 
             new_sect.push(Box::new(SectionHeader64 {
                 sh_name: Self::get_sh_name(mmap, section_head, name_table_off),
-- 
2.43.0


From 61e9dfd90fc32c787611da43a62678b49b4cd41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:44 +0000
Subject: [PATCH 61/64] fix: C.ADD to x0 is a hint, not C.EBREAK

---
 src/cpu/decode/inst_16/c_extension.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/cpu/decode/inst_16/c_extension.rs b/src/cpu/decode/inst_16/c_extension.rs
index 6a4eef8..a52a949 100644
--- a/src/cpu/decode/inst_16/c_extension.rs
+++ b/src/cpu/decode/inst_16/c_extension.rs
@@ -98,12 +98,10 @@ fn quadrant2(
                 0b0 => Ok(OpecodeKind::OP_C_JR),
                 _ => Ok(OpecodeKind::OP_C_MV),
             },
-            0b1 => match mi_flag {
-                0b0 => Ok(OpecodeKind::OP_C_EBREAK),
-                _ => match lo_flag {
-                    0b0 => Ok(OpecodeKind::OP_C_JALR),
-                    _ => Ok(OpecodeKind::OP_C_ADD),
-                },
+            0b1 => match (mi_flag, lo_flag) {
+                (0b0, 0b0) => Ok(OpecodeKind::OP_C_EBREAK),
+                (_, 0b0) => Ok(OpecodeKind::OP_C_JALR),
+                _ => Ok(OpecodeKind::OP_C_ADD),
             },
             _ => Err((
                 Some(u64::from(inst)),
-- 
2.43.0


From e16bcc7b7c8ae9348bc0fdb7e152f23ab0aa0db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:52 +0000
Subject: [PATCH 62/64] fix: byte and word loads from the UART and the PLIC are
 sign-extended like those from memory

---
 src/bus/plic.rs | 6 +++---
 src/bus/uart.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 2764e37..7531c99 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -366,7 +366,7 @@ impl Device for Plic {
                 let cntx = (addr - ENABLE_BASE) / ENABLE_PER_HART;
                 let addr = addr - (cntx * ENABLE_PER_HART + ENABLE_BASE);
                 if cntx < CONTEXT_NUM {
-                    Ok(self.context_enable_read(cntx, addr) as u64)
+                    Ok(self.context_enable_read(cntx, addr) as i32 as i64 as u64)
                 } else {
                     Err((
                         Some(addr as u64),
@@ -379,7 +379,7 @@ impl Device for Plic {
                 let cntx = (addr - CONTEXT_BASE) / CONTEXT_PER_HART;
                 let addr = addr - (cntx * CONTEXT_PER_HART + CONTEXT_BASE);
                 if cntx < CONTEXT_NUM {
-                    Ok(self.context_read(cntx, addr) as u64)
+                    Ok(self.context_read(cntx, addr) as i32 as i64 as u64)
                 } else {
                     Err((
                         Some(addr as u64),
@@ -393,7 +393,7 @@ impl Device for Plic {
     }
 
     fn load64(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
-        let lower = self.load32(addr)?;
+        let lower = self.load32(addr)? & 0xffff_ffff;
         let upper = self.load32(addr + 4)?;
         Ok(upper << 32 | lower)
     }
diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index e1eeab8..f28e193 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -157,7 +157,7 @@ impl Uart {
                 };
                 self.update_interrupt(plic);
 
-                Ok(data as u64)
+                Ok(data as i8 as i64 as u64)
             }
             IER => {
                 if self.uart[UartRegister::LCR as usize] & LcrMask::DLAB as u8 != 0 {
-- 
2.43.0


From 476460d1a8581d50937414e772bfdca31fb0606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 63/64] fix: the UART line and modem status registers are read
 only

---
 src/bus/uart.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index f28e193..8c918d5 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -182,6 +182,8 @@ impl Uart {
         const FCR: usize = UartRegister::IIR_FCR as usize;
         const LCR: usize = UartRegister::LCR as usize;
         const MCR: usize = UartRegister::MCR as usize;
+        const LSR: usize = UartRegister::LSR as usize;
+        const MSR: usize = UartRegister::MSR as usize;
         let index = self.addr2index(addr);
 
         match index {
@@ -220,6 +222,7 @@ impl Uart {
                         LsrMask::TEMT as u8 | LsrMask::THRE as u8;
                 }
             }
+            LSR | MSR => (), // read only
             _ => self.uart[index] = (data & 0xFF) as u8,
         }
 
-- 
2.43.0


From 192d7c66899987f4ae47e0de3c70f1c57e3293b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:02 +0000
Subject: [PATCH 64/64] verification hooks: ELF headers and the frontend server
 are observable

---
 src/elfload.rs                             |  2 ++
 src/elfload/elf_32/elf_header.rs           |  3 ++
 src/elfload/elf_32/elf_header/verif.rs     | 22 +++++++++++++
 src/elfload/elf_32/program_header.rs       |  3 ++
 src/elfload/elf_32/program_header/verif.rs | 33 ++++++++++++++++++++
 src/elfload/elf_32/section_header.rs       |  3 ++
 src/elfload/elf_32/section_header/verif.rs | 36 ++++++++++++++++++++++
 src/elfload/elf_64/elf_header.rs           |  3 ++
 src/elfload/elf_64/elf_header/verif.rs     | 22 +++++++++++++
 src/elfload/elf_64/program_header.rs       |  3 ++
 src/elfload/elf_64/program_header/verif.rs | 33 ++++++++++++++++++++
 src/elfload/elf_64/section_header.rs       |  3 ++
 src/elfload/elf_64/section_header/verif.rs | 36 ++++++++++++++++++++++
 src/elfload/verif.rs                       | 28 +++++++++++++++++
 src/fesvr.rs                               |  2 ++
 src/fesvr/verif.rs                         | 18 +++++++++++
 src/lib.rs                                 |  2 ++
 src/verif.rs                               | 28 +++++++++++++++++
 18 files changed, 280 insertions(+)
 create mode 100644 src/elfload/elf_32/elf_header/verif.rs
 create mode 100644 src/elfload/elf_32/program_header/verif.rs
 create mode 100644 src/elfload/elf_32/section_header/verif.rs
 create mode 100644 src/elfload/elf_64/elf_header/verif.rs
 create mode 100644 src/elfload/elf_64/program_header/verif.rs
 create mode 100644 src/elfload/elf_64/section_header/verif.rs
 create mode 100644 src/elfload/verif.rs
 create mode 100644 src/fesvr/verif.rs
 create mode 100644 src/verif.rs

diff --git a/src/elfload.rs b/src/elfload.rs
index 53197bd..8c94ef3 100644
--- a/src/elfload.rs
+++ b/src/elfload.rs
@@ -1,5 +1,7 @@
 mod elf_32;
 mod elf_64;
+#[cfg(carron_verif)]
+pub mod verif;
 
 use memmap::Mmap;
 use std::fs::File;
diff --git a/src/elfload/elf_32/elf_header.rs b/src/elfload/elf_32/elf_header.rs
index 5b86e68..6671016 100644
--- a/src/elfload/elf_32/elf_header.rs
+++ b/src/elfload/elf_32/elf_header.rs
@@ -1,3 +1,6 @@
+#[cfg(carron_verif)]
+mod verif;
+
 use crate::elfload::{get_u16, get_u32, ElfHeader, ElfIdentification};
 use crate::Isa;
 
diff --git a/src/elfload/elf_32/elf_header/verif.rs b/src/elfload/elf_32/elf_header/verif.rs
new file mode 100644
index 0000000..9281364
--- /dev/null
+++ b/src/elfload/elf_32/elf_header/verif.rs
@@ -0,0 +1,22 @@
+//! Verification hooks (`--cfg carron_verif` only).
+use super::*;
+
+impl ElfHeader32 {
+    pub fn verif_fields(&self) -> [u64; 13] {
+        [
+            u64::from(self.e_type),
+            u64::from(self.e_machine),
+            u64::from(self.e_version),
+            u64::from(self.e_entry),
+            u64::from(self.e_phoff),
+            u64::from(self.e_shoff),
+            u64::from(self.e_flags),
+            u64::from(self.e_ehsize),
+            u64::from(self.e_phentsize),
+            u64::from(self.e_phnum),
+            u64::from(self.e_shentsize),
+            u64::from(self.e_shnum),
+            u64::from(self.e_shstrndx),
+        ]
+    }
+}
diff --git a/src/elfload/elf_32/program_header.rs b/src/elfload/elf_32/program_header.rs
index 4a5659d..0778ab3 100644
--- a/src/elfload/elf_32/program_header.rs
+++ b/src/elfload/elf_32/program_header.rs
@@ -1,3 +1,6 @@
+#[cfg(carron_verif)]
+mod verif;
+
 use super::ElfHeader32;
 use crate::elfload::{get_u32, ProgramHeader};
 
diff --git a/src/elfload/elf_32/program_header/verif.rs b/src/elfload/elf_32/program_header/verif.rs
new file mode 100644
index 0000000..b3256cf
--- /dev/null
+++ b/src/elfload/elf_32/program_header/verif.rs
@@ -0,0 +1,33 @@
+//! Verification hooks (`--cfg carron_verif` only).
+use super::*;
+
+impl ProgramHeader32 {
+    /// # Safety
+    /// `h` must be a `ProgramHeader32`.
+    pub unsafe fn verif_fields(h: &dyn ProgramHeader) -> [u64; 8] {
+        let h = &*(h as *const dyn ProgramHeader as *const ProgramHeader32);
+        [
+            u64::from(h.p_type),
+            u64::from(h.p_offset),
+            u64::from(h.p_vaddr),
+            u64::from(h.p_paddr),
+            u64::from(h.p_filesz),
+            u64::from(h.p_memsz),
+            u64::from(h.p_flags),
+            u64::from(h.p_align),
+        ]
+    }
+
+    pub fn verif_new(p_type: u32, p_offset: u32, p_paddr: u32, p_filesz: u32) -> Self {
+        ProgramHeader32 {
+            p_type,
+            p_offset,
+            p_vaddr: p_paddr,
+            p_paddr,
+            p_filesz,
+            p_memsz: p_filesz,
+            p_flags: 0,
+            p_align: 0,
+        }
+    }
+}
diff --git a/src/elfload/elf_32/section_header.rs b/src/elfload/elf_32/section_header.rs
index e689aa2..b3b0390 100644
--- a/src/elfload/elf_32/section_header.rs
+++ b/src/elfload/elf_32/section_header.rs
@@ -1,3 +1,6 @@
+#[cfg(carron_verif)]
+mod verif;
+
 use super::ElfHeader32;
 use crate::elfload::{get_u16, get_u32, is_cinst, SectionHeader};
 use crate::Isa;
diff --git a/src/elfload/elf_32/section_header/verif.rs b/src/elfload/elf_32/section_header/verif.rs
new file mode 100644
index 0000000..589e190
--- /dev/null
+++ b/src/elfload/elf_32/section_header/verif.rs
@@ -0,0 +1,36 @@
+//! Verification hooks (`--cfg carron_verif` only).
+use super::*;
+
+impl SectionHeader32 {
+    /// # Safety
+    /// `h` must be a `SectionHeader32`.
+    pub unsafe fn verif_fields(h: &dyn SectionHeader) -> [u64; 9] {
+        let h = &*(h as *const dyn SectionHeader as *const SectionHeader32);
+        [
+            u64::from(h.sh_type),
+            u64::from(h.sh_flags),
+            u64::from(h.sh_addr),
+            u64::from(h.sh_offset),
+            u64::from(h.sh_size),
+            u64::from(h.sh_link),
+            u64::from(h.sh_info),
+            u64::from(h.sh_addralign),
+            u64::from(h.sh_entsize),
+        ]
+    }
+
+    pub fn verif_new(sh_name: String, sh_offset: u32, sh_size: u32) -> Self {
+        SectionHeader32 {
+            sh_name,
+            sh_type: 0,
+            sh_flags: 0,
+            sh_addr: 0,
+            sh_offset,
+            sh_size,
+            sh_link: 0,
+            sh_info: 0,
+            sh_addralign: 0,
+            sh_entsize: 0,
+        }
+    }
+}
diff --git a/src/elfload/elf_64/elf_header.rs b/src/elfload/elf_64/elf_header.rs
index eb9600f..f317411 100644
--- a/src/elfload/elf_64/elf_header.rs
+++ b/src/elfload/elf_64/elf_header.rs
@@ -1,3 +1,6 @@
+#[cfg(carron_verif)]
+mod verif;
+
 use crate::elfload::{get_u16, get_u32, get_u64, ElfHeader, ElfIdentification};
 use crate::Isa;
 
diff --git a/src/elfload/elf_64/elf_header/verif.rs b/src/elfload/elf_64/elf_header/verif.rs
new file mode 100644
index 0000000..d9ff6e0
--- /dev/null
+++ b/src/elfload/elf_64/elf_header/verif.rs
@@ -0,0 +1,22 @@
+//! Verification hooks (`--cfg carron_verif` only).
+use super::*;
+
+impl ElfHeader64 {
+    pub fn verif_fields(&self) -> [u64; 13] {
+        [
+            u64::from(self.e_type),
+            u64::from(self.e_machine),
+            u64::from(self.e_version),
+            u64::from(self.e_entry),
+            u64::from(self.e_phoff),
+            u64::from(self.e_shoff),
+            u64::from(self.e_flags),
+            u64::from(self.e_ehsize),
+            u64::from(self.e_phentsize),
+            u64::from(self.e_phnum),
+            u64::from(self.e_shentsize),
+            u64::from(self.e_shnum),
+            u64::from(self.e_shstrndx),
+        ]
+    }
+}
diff --git a/src/elfload/elf_64/program_header.rs b/src/elfload/elf_64/program_header.rs
index 58ae9d5..f0c80b9 100644
--- a/src/elfload/elf_64/program_header.rs
+++ b/src/elfload/elf_64/program_header.rs
@@ -1,3 +1,6 @@
+#[cfg(carron_verif)]
+mod verif;
+
 use super::ElfHeader64;
 use crate::elfload::{get_u32, get_u64, ProgramHeader};
 
diff --git a/src/elfload/elf_64/program_header/verif.rs b/src/elfload/elf_64/program_header/verif.rs
new file mode 100644
index 0000000..b4ac50a
--- /dev/null
+++ b/src/elfload/elf_64/program_header/verif.rs
@@ -0,0 +1,33 @@
+//! Verification hooks (`--cfg carron_verif` only).
+use super::*;
+
+impl ProgramHeader64 {
+    /// # Safety
+    /// `h` must be a `ProgramHeader64`.
+    pub unsafe fn verif_fields(h: &dyn ProgramHeader) -> [u64; 8] {
+        let h = &*(h as *const dyn ProgramHeader as *const ProgramHeader64);
+        [
+            u64::from(h.p_type),
+            u64::from(h.p_offset),
+            u64::from(h.p_vaddr),
+            u64::from(h.p_paddr),
+            u64::from(h.p_filesz),
+            u64::from(h.p_memsz),
+            u64::from(h.p_flags),
+            u64::from(h.p_align),
+        ]
+    }
+
+    pub fn verif_new(p_type: u32, p_offset: u64, p_paddr: u64, p_filesz: u64) -> Self {
+        ProgramHeader64 {
+            p_type,
+            p_offset,
+            p_vaddr: p_paddr,
+            p_paddr,
+            p_filesz,
+            p_memsz: p_filesz,
+            p_flags: 0,
+            p_align: 0,
+        }
+    }
+}
diff --git a/src/elfload/elf_64/section_header.rs b/src/elfload/elf_64/section_header.rs
index 876a284..9fc46db 100644
--- a/src/elfload/elf_64/section_header.rs
+++ b/src/elfload/elf_64/section_header.rs
@@ -1,3 +1,6 @@
+#[cfg(carron_verif)]
+mod verif;
+
 use super::ElfHeader64;
 use crate::elfload::{get_u16, get_u32, get_u64, is_cinst, SectionHeader};
 use crate::Isa;
diff --git a/src/elfload/elf_64/section_header/verif.rs b/src/elfload/elf_64/section_header/verif.rs
new file mode 100644
index 0000000..0bb67e8
--- /dev/null
+++ b/src/elfload/elf_64/section_header/verif.rs
@@ -0,0 +1,36 @@
+//! Verification hooks (`--cfg carron_verif` only).
+use super::*;
+
+impl SectionHeader64 {
+    /// # Safety
+    /// `h` must be a `SectionHeader64`.
+    pub unsafe fn verif_fields(h: &dyn SectionHeader) -> [u64; 9] {
+        let h = &*(h as *const dyn SectionHeader as *const SectionHeader64);
+        [
+            u64::from(h.sh_type),
+            u64::from(h.sh_flags),
+            u64::from(h.sh_addr),
+            u64::from(h.sh_offset),
+            u64::from(h.sh_size),
+            u64::from(h.sh_link),
+            u64::from(h.sh_info),
+            u64::from(h.sh_addralign),
+            u64::from(h.sh_entsize),
+        ]
+    }
+
+    pub fn verif_new(sh_name: String, sh_offset: u64, sh_size: u64) -> Self {
+        SectionHeader64 {
+            sh_name,
+            sh_type: 0,
+            sh_flags: 0,
+            sh_addr: 0,
+            sh_offset,
+            sh_size,
+            sh_link: 0,
+            sh_info: 0,
+            sh_addralign: 0,
+            sh_entsize: 0,
+        }
+    }
+}
diff --git a/src/elfload/verif.rs b/src/elfload/verif.rs
new file mode 100644
index 0000000..cbd9c17
--- /dev/null
+++ b/src/elfload/verif.rs
@@ -0,0 +1,28 @@
+//! Verification hooks (`--cfg carron_verif` only).
+use super::*;
+
+pub use super::elf_32::elf_header::ElfHeader32;
+pub use super::elf_32::program_header::ProgramHeader32;
+pub use super::elf_32::section_header::SectionHeader32;
+pub use super::elf_64::elf_header::ElfHeader64;
+pub use super::elf_64::program_header::ProgramHeader64;
+pub use super::elf_64::section_header::SectionHeader64;
+
+impl ElfIdentification {
+    pub fn verif_new(mmap: &[u8]) -> Self {
+        Self::new(mmap)
+    }
+
+    pub fn verif_fields(&self) -> ([u8; 16], [u8; 5]) {
+        (
+            self.magic,
+            [
+                self.class,
+                self.endian,
+                self.version,
+                self.os_abi,
+                self.os_abi_ver,
+            ],
+        )
+    }
+}
diff --git a/src/fesvr.rs b/src/fesvr.rs
index c794cc3..6ebb4e9 100644
--- a/src/fesvr.rs
+++ b/src/fesvr.rs
@@ -1,4 +1,6 @@
 mod syscall;
+#[cfg(carron_verif)]
+mod verif;
 use crate::Emulator;
 
 pub struct FrontendServer {
diff --git a/src/fesvr/verif.rs b/src/fesvr/verif.rs
new file mode 100644
index 0000000..12ed470
--- /dev/null
+++ b/src/fesvr/verif.rs
@@ -0,0 +1,18 @@
+//! Verification hooks (`--cfg carron_verif` only).
+use super::*;
+
+impl FrontendServer {
+    pub fn verif_new(fd_table: Vec<Option<u64>>) -> Self {
+        FrontendServer { fd_table }
+    }
+
+    pub fn verif_table(&self) -> &Vec<Option<u64>> {
+        &self.fd_table
+    }
+}
+
+impl Emulator {
+    pub fn verif_exec_syscall(&mut self, sysargs: [u64; 8]) -> i64 {
+        self.exec_syscall(sysargs)
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 352f3a7..73488ad 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,6 +6,8 @@ pub mod cpu;
 pub mod elfload;
 mod fesvr;
 pub mod log;
+#[cfg(carron_verif)]
+pub mod verif;
 
 use cmdline::Arguments;
 use cpu::{Cpu, TrapCause};
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..5dece99
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,28 @@
+//! Verification hooks (`--cfg carron_verif` only).
+use super::*;
+
+pub use super::fesvr::FrontendServer;
+
+impl Emulator {
+    /// Initialise every field of `*p` except the processor, which the caller has set up.
+    ///
+    /// # Safety
+    /// `p` must be valid for writes; nothing is dropped.
+    pub unsafe fn verif_init(
+        p: *mut Self,
+        frontend_server: FrontendServer,
+        tohost_addr: Option<u64>,
+        fromhost_addr: Option<u64>,
+        args: Arguments,
+    ) {
+        use std::ptr::{addr_of_mut, write};
+        write(addr_of_mut!((*p).frontend_server), frontend_server);
+        write(addr_of_mut!((*p).tohost_addr), tohost_addr);
+        write(addr_of_mut!((*p).fromhost_addr), fromhost_addr);
+        write(addr_of_mut!((*p).args), args);
+    }
+
+    pub fn verif_frontend_server(&self) -> &FrontendServer {
+        &self.frontend_server
+    }
+}
-- 
2.43.0

