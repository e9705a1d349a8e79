"""Which contract harnesses decide which property (kani/src), and what they assume."""
from engine import NOMEM, TERMS

TRUSTED = [
    "Kani 0.68 (MIR to GOTO translation), CBMC and its SAT/SMT back ends",
    "rustc's MIR for carron, compiled with overflow-checks=off as /repo's dev/release profiles are used",
    "logging, printing and error-text formatting have no effect on the machine (stubbed: log level, print, format!)",
]
WIDE = ["--max-field-sensitivity-array-size", "128"]  # larger objects are tracked field by field
REGS = "register file contract (proved by C01)"
MEM = "address translation and bus access contracts (proved by C09, C10, C11, C12)"
EXEC = ["Instruction::execution", "inst_32::exe_inst", "inst_16::exe_cinst"]
DEC32 = ["<u32 as Decode>::decode", "inst_32::{base_i,m_extension,a_extension,zicsr_extension,priv_extension}::parse_*"]
DEC16 = ["<u16 as Decode>::decode", "inst_16::c_extension::parse_*"]


def dec(*classes):
    helpers = {"decode::%s%d" % (f, 16 if c in ("c0", "c1", "c2") else 32) for c in classes for f in ("slice", "set")}
    return ["decode::rv%d_%s" % (x, c) for c in classes for x in (64, 32)] + sorted(helpers)


PROPS = {
    "C01": dict(
        functions=["Register::new", "Register::read", "Register::write"],
        groups=[dict(harness=["regfile::"], flags=NOMEM)],
    ),
    "C02": dict(
        functions=EXEC + ["base_i::exec", "c_extension::exec", "Cpu::add2pc", "Cpu::update_pc"] + DEC32 + DEC16,
        assumptions=[REGS],
        groups=[dict(harness=["alu::"] + dec("int", "c0", "c1", "c2"), flags=NOMEM)],
    ),
    "C03": dict(
        functions=EXEC + ["m_extension::exec", "Cpu::add2pc"] + DEC32,
        assumptions=[REGS, "lemmas mul_split and mul_negated (verus/lemmas.rs): the upper half of a product computed from "
                           "32-bit partial products is that of the mathematical product"],
        verus=["lemmas.rs"],
        groups=[dict(harness=dec("mul"), flags=NOMEM),
                dict(harness=["muldiv::full::"], flags=NOMEM, timeout=300,
                     terms=["destination register holds the specified result"],
                     instead=[("muldiv::wide::", None), ("muldiv::direct::", None),
                              ("muldiv::small::", "operands: sign-extended 5-bit numbers and five extreme values")])],
    ),
    "C04": dict(
        functions=EXEC + ["base_i::exec", "c_extension::exec", "Cpu::add2pc", "Cpu::update_pc"] + DEC32 + DEC16,
        assumptions=[REGS],
        groups=[dict(harness=["control::"] + dec("ctl", "c1", "c2"), flags=NOMEM)],
    ),
    "C05": dict(
        functions=EXEC + ["base_i::exec", "c_extension::exec"] + DEC32 + DEC16,
        assumptions=[REGS, MEM],
        groups=[dict(harness=["memory::rv64_loads", "memory::rv32_loads", "memory::rv64_stores",
                              "memory::rv32_stores", "memory::rv64_c_access", "memory::rv32_c_access"]
                     + dec("mem", "c0", "c2"), flags=NOMEM)],
    ),
    "C06": dict(
        functions=EXEC + ["a_extension::exec", "a_extension::atomic_memory_operations_{32,64}"] + DEC32,
        assumptions=[REGS, MEM],
        groups=[dict(harness=["memory::rv64_lr_sc", "memory::rv32_lr_sc", "memory::rv64_amo", "memory::rv32_amo"]
                     + dec("amo"), flags=NOMEM)],
    ),
    "C07": dict(
        functions=DEC32,
        groups=[dict(harness=dec("all"), flags=NOMEM)],
    ),
    "C08": dict(
        functions=DEC16,
        groups=[dict(harness=dec("c0", "c1", "c2"), flags=NOMEM)],
    ),
    "C09": dict(
        functions=["<Dram as Device>::load*/store*", "Dram::{addr2index,in_range}", "Device::covers"],
        assumptions=["the 2 GiB backing buffer is allocated by Dram's own constructor (its size is a constant)"],
        groups=[dict(harness=["dram::dram_", "dram::ranges"])],
    ),
    "C10": dict(
        functions=["Bus::load8..store64", "Bus::get_device", "Device::covers", "accessors a device refuses"],
        assumptions=["each device's own accessors behave as their contracts (proved by C09, C18, C19, C20)"],
        groups=[dict(harness=["route::"], flags=NOMEM),
                dict(harness=["dram::ranges", "plic::write_elsewhere", "plic::read_elsewhere", "plic::doubleword"])],
    ),
    "C11": dict(
        functions=["Cpu::trans_addr", "Mmu::{trans_addr,update_ppn_and_mode,is_leaf_pte,check_pte_validity,check_leaf_pte}", "Dram::in_range"],
        assumptions=["contracts of CSRs::{read,read_xstatus} (proved by C14), <Dram as Device>::load32/load64 (C09), "
                     "Mmu::pmp (C12), Cpu::check_breakpoint (C22)",
                     "reserved page-table-entry bits and satp modes other than Bare/Sv32/Sv39 are left open"],
        groups=[dict(harness=["mmu::rv64_walk", "mmu::rv32_walk"], flags=NOMEM)],
    ),
    "C12": dict(
        functions=["Mmu::{pmp,check_pmp}"],
        assumptions=["contract of CSRs::read (proved by C14)", "physical addresses are 34 (RV32) or 56 (RV64) bits wide; "
                     "the reserved permission W without R is left open"],
        groups=[dict(harness=["mmu::rv64_pmp", "mmu::rv32_pmp"], flags=NOMEM)],
    ),
    "C13": dict(
        functions=EXEC + ["zicsr_extension::{exec,check_accessible}", "CSRs::read_xstatus"] + DEC32,
        assumptions=[REGS, "contracts of CSRs::{read,write,bitset,bitclr} (proved by C14)", MEM,
                     "the instruction's own address still translates when it executes (it was fetched through it)"],
        groups=[dict(harness=["zicsr::"], flags=NOMEM)],
    ),
    "C14": dict(
        functions=EXEC + ["zicsr_extension::exec", "CSRs::{new,init,read,write,bitset,bitclr,read_xstatus,write_xstatus,update_triggers}"],
        assumptions=[REGS],
        groups=[dict(harness=["csrfile::rv"], flags=NOMEM, terms=TERMS),
                dict(harness=["zicsr::"] + dec("sys"), flags=NOMEM)],
    ),
    "C15": dict(
        functions=["Cpu::trap", "CSRs::{read,write,bitset,bitclr}"],
        groups=[dict(harness=["trap::rv64_trap", "trap::rv32_trap"], flags=NOMEM, terms=TERMS)],
    ),
    "C16": dict(
        functions=EXEC + ["priv_extension::exec", "base_i::exec", "c_extension::exec", "CSRs::{read,read_xstatus,write_xstatus}"] + DEC32,
        assumptions=[REGS, "trap entry contract (proved by C15)"],
        groups=[dict(harness=["privileged::"], flags=NOMEM, terms=TERMS), dict(harness=dec("sys", "c2"), flags=NOMEM)],
    ),
    "C17": dict(
        functions=["Cpu::check_interrupt", "CSRs::{read,bitset,bitclr}"],
        groups=[dict(harness=["trap::rv64_interrupt", "trap::rv32_interrupt"], flags=NOMEM, terms=TERMS)],
    ),
    "C18": dict(
        functions=["<Plic as Device>::load*/store*", "Plic::{context_*,priority_*,set_interrupt_level,new}", "PlicContext::new"],
        groups=[dict(harness=["plic::"])],
    ),
    "C19": dict(
        functions=["Uart::{load8_with_plic,store8_with_plic,tick}", "<Uart as Device>::load*"],
        assumptions=["VecDeque and mpsc::Receiver behave as documented; Kani drops print!, so emission is observed at "
                     "the conversion and the flush that surround it", "Uart::new (starts the reader thread) is not under contract"],
        groups=[dict(harness=["uart::load", "uart::store_"], flags=NOMEM),
                dict(harness=["uart::tick"], flags=NOMEM, bounded="received text of at most 3 ASCII characters per tick")],
    ),
    "C20": dict(
        functions=["<Clint as Device>::load*/store*", "Clint::new", "<Mrom as Device>::load*/store*", "Cpu::timer_increment"],
        assumptions=["Mrom::new (copies the boot code and the device tree blob) is not under contract"],
        groups=[dict(harness=["dram::clint_", "dram::mrom_", "dram::ranges"]),
                dict(harness=["trap::rv64_timer", "trap::rv32_timer"], flags=NOMEM, terms=TERMS)],
    ),
    "C21": dict(
        functions=["Cpu::exec_one_cycle", "fetch::fetch", "Emulator::emulation", "Cpu::new", "Mrom::new"],
        assumptions=["contracts of Cpu::check_interrupt (proved by C17), Cpu::trans_addr (C11, C12, C22), Bus loads (C09, C10), "
                     "the decoders (C07, C08) and Instruction::execution (C02-C06, C13, C14, C16)",
                     "contracts of Cpu::trap (proved by C15), Emulator::check_tohost and handle_syscall (C25), Uart::tick (C19)",
                     "Mrom::new: the device tree and the copying of the boot code's bytes are not under contract"],
        groups=[dict(harness=["step::boot"], flags=NOMEM + WIDE, optional=True,
                     bounded="the boot code's words as they are turned into bytes, not the copying of the bytes; memory below 4 GiB"),
                dict(harness=["step::"], flags=NOMEM)],
    ),
    "C22": dict(
        functions=["Cpu::check_breakpoint", "CSRs::{write,bitset,bitclr,read,update_triggers}", "Cpu::trans_addr"],
        assumptions=["trigger chaining, actions other than a breakpoint exception and data matching are left open",
                     "contracts of CSRs::{read,read_xstatus} (proved by C14), <Dram as Device>::load* (C09) and Mmu::pmp (C12) "
                     "where Cpu::trans_addr is shown to consult the triggers first"],
        groups=[dict(harness=["mmu::rv64_triggers", "mmu::rv32_triggers", "mmu::trigger_first"], flags=NOMEM),
                dict(harness=["csrfile::trigger_"], flags=NOMEM, terms=TERMS)],
    ),
    "C23": dict(
        ffi=True,
        note="bodies that loop over tables, names or transfers are bounded checks, each with its bound in the evidence file and not "
             "counted as proved; everything else is discharged for all inputs",
        functions=["{ElfHeader,ProgramHeader,SectionHeader}{32,64}::new and their accessors", "{Program,Section}Header{32,64}::{new_prog,new_sect}",
                   "SectionHeader{32,64}::{get_sh_name,section_range}", "elfload::{get_u16,get_u32,get_u64}",
                   "ElfIdentification::{new,target_arch}", "{ElfHeader32,ElfHeader64}::{is_elf,target_arch}", "ElfLoader::{get_entry_point,get_host_addr}", "Dram::new"],
        assumptions=["the kernel's mapping of the file holds the file; munmap and sysconf may answer anything (kani/host.c)",
                     "a vector of zeros has the length asked for (Dram::new's buffer is a stand-in of that length)",
                     "main.rs's refusal of a file which is not ELF, ElfLoader::try_new (opens and maps the file) and "
                     "Dram::new's loading of a kernel are not under contract; File::open opens the file of the name given"],
        groups=[dict(harness=["elf::words", "elf::file32", "elf::file64"], flags=NOMEM + WIDE),
                dict(harness=["elf::prog", "elf::sect", "elf::names"], flags=NOMEM + WIDE,
                     bounded="three headers, anywhere in an image of any length"),
                dict(harness=["elf::text"], flags=NOMEM + WIDE, bounded="names of at most 7 ASCII characters"),
                dict(harness=["elf::entry"], flags=NOMEM + WIDE, bounded="three segments"),
                dict(harness=["elf::load"], flags=NOMEM + WIDE, bounded="two segments of two and three bytes, five bytes apart"),
                dict(harness=["elf::initrd"], flags=NOMEM + WIDE,
                     bounded="a ramdisk of three bytes, memory beginning sixteen bytes before its end"),
                dict(harness=["elf::host"], flags=NOMEM + WIDE, bounded="a symbol table of three symbols: the two, in either order or one missing, and one of a similar name")],
    ),
    "C24": dict(
        ffi=True,
        functions=["FrontendServer::{new,fd_alloc,fd_dealloc,fd_lookup,dirfd_lookup,openat,close,lseek}"],
        assumptions=["the host's openat, close and lseek may answer anything (kani/host.c)", "memory contracts (proved by C09)"],
        groups=[dict(harness=["fesvr::lookup", "fesvr::dir_lookup", "fesvr::dealloc", "fesvr::initial",
                              "fesvr::host::close", "fesvr::host::lseek"]),
                dict(harness=["fesvr::alloc"], bounded="tables of at most ten descriptors"),
                dict(harness=["fesvr::host::openat"], bounded="names of at most three ASCII characters")],
    ),
    "C25": dict(
        ffi=True,
        note="bodies that loop over tables, names or transfers are bounded checks, each with its bound in the evidence file and not "
             "counted as proved; everything else is discharged for all inputs",
        functions=["Emulator::{handle_syscall,exec_syscall,check_tohost}",
                   "FrontendServer::{read,write,pread,pwrite,openat,fstat,fstatat,getmainvars,exit}", "memread", "memwrite", "sysret_errno"],
        assumptions=["the host's calls may answer anything within their documented range (kani/host.c)",
                     "memory contracts (proved by C09) and fd_lookup (proved by C24)"],
        groups=[dict(harness=["fesvr::request", "fesvr::ending"]),
                dict(harness=["fesvr::host::openat"], bounded="names of at most three ASCII characters"),
                dict(harness=["fesvr::host::read", "fesvr::host::write", "fesvr::host::pread", "fesvr::host::pwrite"],
                     bounded="transfers of at most four bytes"),
                dict(harness=["fesvr::host::fstat"], bounded="the host refuses with EIO; names of two ASCII characters"),
                dict(harness=["fesvr::host::mainvars"], bounded="two arguments"),
                dict(harness=["fesvr::host::layout"],
                     bounded="descriptor 0, name 'a'; the sixteen words of the guest's structure as they are turned into "
                             "bytes, not the copying of the bytes")],
    ),
}
NOT_APPLICABLE = {}
