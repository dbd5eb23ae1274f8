"""MIPS instruction table: name, operands, fixed bits, availability, flags. Fixed reference data."""
T = [
 ("j", "i26", 0x08000000, "MIPS1", "IPCA|DELAY|NODELAYSLOT"),
 ("jal", "i26", 0x0C000000, "MIPS1", "IPCA|DELAY|NODELAYSLOT"),
 ("beq", "s,t,i16", 0x10000000, "MIPS1", "IPCR|DELAY|NODELAYSLOT"),
 ("beqz", "s,i16", 0x10000000, "MIPS1", "IPCR|DELAY|NODELAYSLOT"),
 ("b", "i16", 0x10000000, "MIPS1", "IPCR|DELAY|NODELAYSLOT"),
 ("bne", "s,t,i16", 0x14000000, "MIPS1", "IPCR|DELAY|NODELAYSLOT"),
 ("bnez", "s,i16", 0x14000000, "MIPS1", "IPCR|DELAY|NODELAYSLOT"),
 ("blez", "s,i16", 0x18000000, "MIPS1", "IPCR|DELAY|NODELAYSLOT"),
 ("bgtz", "s,i16", 0x1C000000, "MIPS1", "IPCR|DELAY|NODELAYSLOT"),
 ("addi", "t,s,i16", 0x20000000, "MIPS1", "IGNORERTD"),
 ("addi", "s,i16", 0x20000000, "MIPS1", "RST"),
 ("subi", "t,s,i16", 0x20000000, "MIPS1", "IGNORERTD|NEGIMM"),
 ("subi", "s,i16", 0x20000000, "MIPS1", "RST|NEGIMM"),
 ("addiu", "t,s,i16", 0x24000000, "MIPS1", "IGNORERTD"),
 ("addiu", "s,i16", 0x24000000, "MIPS1", "RST"),
 ("subiu", "t,s,i16", 0x24000000, "MIPS1", "IGNORERTD|NEGIMM"),
 ("subiu", "s,i16", 0x24000000, "MIPS1", "RST|NEGIMM"),
 ("slti", "t,s,i16", 0x28000000, "MIPS1", "IGNORERTD"),
 ("slti", "s,i16", 0x28000000, "MIPS1", "RST"),
 ("sltiu", "t,s,i16", 0x2C000000, "MIPS1", "IGNORERTD"),
 ("sltiu", "s,i16", 0x2C000000, "MIPS1", "RST"),
 ("andi", "t,s,i16", 0x30000000, "MIPS1", "IGNORERTD"),
 ("andi", "s,i16", 0x30000000, "MIPS1", "RST"),
 ("ori", "t,s,i16", 0x34000000, "MIPS1", "IGNORERTD"),
 ("ori", "s,i16", 0x34000000, "MIPS1", "RST"),
 ("xori", "t,s,i16", 0x38000000, "MIPS1", "IGNORERTD"),
 ("xori", "s,i16", 0x38000000, "MIPS1", "RST"),
 ("lui", "t,i16", 0x3C000000, "MIPS1", "IGNORERTD"),
 ("cop2", "i25", 0x4A000000, "PSX", ""),
 ("beql", "s,t,i16", 0x50000000, "MIPS2", "IPCR|DELAY|NODELAYSLOT"),
 ("beqzl", "s,i16", 0x50000000, "MIPS2", "IPCR|DELAY|NODELAYSLOT"),
 ("bnel", "s,t,i16", 0x54000000, "MIPS2", "IPCR|DELAY|NODELAYSLOT"),
 ("bnezl", "s,i16", 0x54000000, "MIPS2", "IPCR|DELAY|NODELAYSLOT"),
 ("blezl", "s,i16", 0x58000000, "MIPS2", "IPCR|DELAY|NODELAYSLOT"),
 ("bgtzl", "s,i16", 0x5C000000, "MIPS2", "IPCR|DELAY|NODELAYSLOT"),
 ("daddi", "t,s,i16", 0x60000000, "MIPS3", "64BIT"),
 ("daddi", "s,i16", 0x60000000, "MIPS3", "64BIT|RST"),
 ("dsubi", "t,s,i16", 0x60000000, "MIPS3", "64BIT|NEGIMM"),
 ("dsubi", "s,i16", 0x60000000, "MIPS3", "64BIT|RST|NEGIMM"),
 ("daddiu", "t,s,i16", 0x64000000, "MIPS3", "64BIT"),
 ("daddiu", "s,i16", 0x64000000, "MIPS3", "64BIT|RST"),
 ("dsubiu", "t,s,i16", 0x64000000, "MIPS3", "64BIT|NEGIMM"),
 ("dsubiu", "s,i16", 0x64000000, "MIPS3", "64BIT|RST|NEGIMM"),
 ("ldl", "t,i16(s)", 0x68000000, "MIPS3", "64BIT|DELAYRT|IGNORERTD"),
 ("ldl", "t,(s)", 0x68000000, "MIPS3", "64BIT|DELAYRT|IGNORERTD"),
 ("ldr", "t,i16(s)", 0x6C000000, "MIPS3", "64BIT|DELAYRT|IGNORERTD"),
 ("ldr", "t,(s)", 0x6C000000, "MIPS3", "64BIT|DELAYRT|IGNORERTD"),
 ("lq", "t,i16(s)", 0x78000000, "PS2", "DELAYRT|IGNORERTD"),
 ("lq", "t,(s)", 0x78000000, "PS2", "DELAYRT|IGNORERTD"),
 ("sq", "t,i16(s)", 0x7C000000, "PS2", "DELAYRT|IGNORERTD"),
 ("sq", "t,(s)", 0x7C000000, "PS2", "DELAYRT|IGNORERTD"),
 ("lb", "t,i16(s)", 0x80000000, "MIPS1", "DELAYRT|IGNORERTD"),
 ("lb", "t,(s)", 0x80000000, "MIPS1", "DELAYRT|IGNORERTD"),
 ("lh", "t,i16(s)", 0x84000000, "MIPS1", "DELAYRT|IGNORERTD"),
 ("lh", "t,(s)", 0x84000000, "MIPS1", "DELAYRT|IGNORERTD"),
 ("lwl", "t,i16(s)", 0x88000000, "MIPS1|EXRSP", "DELAYRT|IGNORERTD"),
 ("lwl", "t,(s)", 0x88000000, "MIPS1|EXRSP", "DELAYRT|IGNORERTD"),
 ("lw", "t,i16(s)", 0x8C000000, "MIPS1", "DELAYRT|IGNORERTD"),
 ("lw", "t,(s)", 0x8C000000, "MIPS1", "DELAYRT|IGNORERTD"),
 ("lbu", "t,i16(s)", 0x90000000, "MIPS1", "DELAYRT|IGNORERTD"),
 ("lbu", "t,(s)", 0x90000000, "MIPS1", "DELAYRT|IGNORERTD"),
 ("lhu", "t,i16(s)", 0x94000000, "MIPS1", "DELAYRT|IGNORERTD"),
 ("lhu", "t,(s)", 0x94000000, "MIPS1", "DELAYRT|IGNORERTD"),
 ("lwr", "t,i16(s)", 0x98000000, "MIPS1|EXRSP", "DELAYRT|IGNORERTD"),
 ("lwr", "t,(s)", 0x98000000, "MIPS1|EXRSP", "DELAYRT|IGNORERTD"),
 ("lwu", "t,i16(s)", 0x9C000000, "MIPS3", "64BIT|DELAYRT"),
 ("lwu", "t,(s)", 0x9C000000, "MIPS3", "64BIT|DELAYRT"),
 ("sb", "t,i16(s)", 0xA0000000, "MIPS1", ""),
 ("sb", "t,(s)", 0xA0000000, "MIPS1", ""),
 ("sh", "t,i16(s)", 0xA4000000, "MIPS1", ""),
 ("sh", "t,(s)", 0xA4000000, "MIPS1", ""),
 ("swl", "t,i16(s)", 0xA8000000, "MIPS1|EXRSP", ""),
 ("swl", "t,(s)", 0xA8000000, "MIPS1|EXRSP", ""),
 ("sw", "t,i16(s)", 0xAC000000, "MIPS1", ""),
 ("sw", "t,(s)", 0xAC000000, "MIPS1", ""),
 ("sdl", "t,i16(s)", 0xB0000000, "MIPS3", "64BIT"),
 ("sdl", "t,(s)", 0xB0000000, "MIPS3", "64BIT"),
 ("sdr", "t,i16(s)", 0xB4000000, "MIPS3", "64BIT|IGNORERTD"),
 ("sdr", "t,(s)", 0xB4000000, "MIPS3", "64BIT|IGNORERTD"),
 ("swr", "t,i16(s)", 0xB8000000, "MIPS1|EXRSP", ""),
 ("swr", "t,(s)", 0xB8000000, "MIPS1|EXRSP", ""),
 ("cache", "jc,i16(s)", 0xBC000000, "MIPS2", ""),
 ("cache", "jc,(s)", 0xBC000000, "MIPS2", ""),
 ("ll", "t,i16(s)", 0xC0000000, "MIPS2", "DELAYRT|IGNORERTD"),
 ("ll", "t,(s)", 0xC0000000, "MIPS2", "DELAYRT|IGNORERTD"),
 ("lwc1", "T,i16(s)", 0xC4000000, "MIPS1", "FPU"),
 ("lwc1", "T,(s)", 0xC4000000, "MIPS1", "FPU"),
 ("l.s", "T,i16(s)", 0xC4000000, "MIPS1", "FPU"),
 ("l.s", "T,(s)", 0xC4000000, "MIPS1", "FPU"),
 ("lwc2", "gt,i16(s)", 0xC8000000, "PSX", ""),
 ("lwc2", "gt,(s)", 0xC8000000, "PSX", ""),
 ("lv.s", "vt,i16(s)", 0xC8000000, "PSP", "VFPU_SINGLE|VFPU_MIXED|IMMALIGNED"),
 ("lv.s", "vt,(s)", 0xC8000000, "PSP", "VFPU_SINGLE|VFPU_MIXED"),
 ("lld", "t,i16(s)", 0xD0000000, "MIPS3", "64BIT|DELAYRT"),
 ("lld", "t,(s)", 0xD0000000, "MIPS3", "64BIT|DELAYRT"),
 ("ldc1", "T,i16(s)", 0xD4000000, "MIPS2", "DFPU"),
 ("ldc1", "T,(s)", 0xD4000000, "MIPS2", "DFPU"),
 ("l.d", "T,i16(s)", 0xD4000000, "MIPS2", "DFPU"),
 ("l.d", "T,(s)", 0xD4000000, "MIPS2", "DFPU"),
 ("ulv.q", "vt,i16(s)", 0xD4000000, "PSP", "VFPU_QUAD|VFPU_MIXED|IMMALIGNED"),
 ("ulv.q", "vt,(s)", 0xD4000000, "PSP", "VFPU_QUAD|VFPU_MIXED"),
 ("lvl.q", "vt,i16(s)", 0xD4000000, "PSP", "VFPU_QUAD|VFPU_MIXED|VFPU_6BIT|IMMALIGNED"),
 ("lvl.q", "vt,(s)", 0xD4000000, "PSP", "VFPU_QUAD|VFPU_MIXED|VFPU_6BIT"),
 ("lvr.q", "vt,i16(s)", 0xD4000002, "PSP", "VFPU_QUAD|VFPU_MIXED|VFPU_6BIT|IMMALIGNED"),
 ("lvr.q", "vt,(s)", 0xD4000002, "PSP", "VFPU_QUAD|VFPU_MIXED|VFPU_6BIT"),
 ("lv.q", "vt,i16(s)", 0xD8000000, "PSP", "VFPU_QUAD|VFPU_MIXED|VFPU_6BIT|IMMALIGNED"),
 ("lv.q", "vt,(s)", 0xD8000000, "PSP", "VFPU_QUAD|VFPU_MIXED|VFPU_6BIT"),
 ("lqc2", "Vt,i16(s)", 0xD8000000, "PS2", "DELAYRT"),
 ("ld", "t,i16(s)", 0xDC000000, "MIPS3", "64BIT|DELAYRT"),
 ("ld", "t,(s)", 0xDC000000, "MIPS3", "64BIT|DELAYRT"),
 ("sc", "t,i16(s)", 0xE0000000, "MIPS2", ""),
 ("sc", "t,(s)", 0xE0000000, "MIPS2", ""),
 ("swc1", "T,i16(s)", 0xE4000000, "MIPS1", "FPU"),
 ("swc1", "T,(s)", 0xE4000000, "MIPS1", "FPU"),
 ("s.s", "T,i16(s)", 0xE4000000, "MIPS1", "FPU"),
 ("s.s", "T,(s)", 0xE4000000, "MIPS1", "FPU"),
 ("swc2", "gt,i16(s)", 0xE8000000, "PSX", ""),
 ("swc2", "gt,(s)", 0xE8000000, "PSX", ""),
 ("sv.s", "vt,i16(s)", 0xE8000000, "PSP", "VFPU_SINGLE|VFPU_MIXED|IMMALIGNED"),
 ("sv.s", "vt,(s)", 0xE8000000, "PSP", "VFPU_SINGLE|VFPU_MIXED"),
 ("scd", "t,i16(s)", 0xF0000000, "MIPS3", "64BIT|DELAYRT"),
 ("scd", "t,(s)", 0xF0000000, "MIPS3", "64BIT|DELAYRT"),
 ("sdc1", "T,i16(s)", 0xF4000000, "MIPS2", "DFPU"),
 ("sdc1", "T,(s)", 0xF4000000, "MIPS2", "DFPU"),
 ("s.d", "T,i16(s)", 0xF4000000, "MIPS2", "DFPU"),
 ("s.d", "T,(s)", 0xF4000000, "MIPS2", "DFPU"),
 ("usv.q", "vt,i16(s)", 0xF4000000, "PSP", "VFPU_QUAD|VFPU_MIXED|IMMALIGNED"),
 ("usv.q", "vt,(s)", 0xF4000000, "PSP", "VFPU_QUAD|VFPU_MIXED"),
 ("svl.q", "vt,i16(s)", 0xF4000000, "PSP", "VFPU_QUAD|VFPU_MIXED|VFPU_6BIT|IMMALIGNED"),
 ("svl.q", "vt,(s)", 0xF4000000, "PSP", "VFPU_QUAD|VFPU_MIXED|VFPU_6BIT"),
 ("svr.q", "vt,i16(s)", 0xF4000002, "PSP", "VFPU_QUAD|VFPU_MIXED|VFPU_6BIT|IMMALIGNED"),
 ("svr.q", "vt,(s)", 0xF4000002, "PSP", "VFPU_QUAD|VFPU_MIXED|VFPU_6BIT"),
 ("sv.q", "vt,i16(s),w", 0xF8000002, "PSP", "VFPU_QUAD|VFPU_MIXED|VFPU_6BIT|IMMALIGNED"),
 ("sv.q", "vt,(s),w", 0xF8000002, "PSP", "VFPU_QUAD|VFPU_MIXED|VFPU_6BIT"),
 ("sv.q", "vt,i16(s)", 0xF8000000, "PSP", "VFPU_QUAD|VFPU_MIXED|VFPU_6BIT|IMMALIGNED"),
 ("sv.q", "vt,(s)", 0xF8000000, "PSP", "VFPU_QUAD|VFPU_MIXED|VFPU_6BIT"),
 ("sqc2", "Vt,i16(s)", 0xF8000000, "PS2", "DELAYRT"),
 ("sd", "t,i16(s)", 0xFC000000, "MIPS3", "64BIT|DELAYRT"),
 ("sd", "t,(s)", 0xFC000000, "MIPS3", "64BIT|DELAYRT"),
 ("sll", "d,t,i5", 0x00000000, "MIPS1", ""),
 ("sll", "d,i5", 0x00000000, "MIPS1", "RDT"),
 ("nop", "", 0x00000000, "MIPS1", ""),
 ("srl", "d,t,i5", 0x00000002, "MIPS1", ""),
 ("srl", "d,i5", 0x00000002, "MIPS1", "RDT"),
 ("rotr", "d,t,i5", 0x00200002, "PSP", ""),
 ("rotr", "d,i5", 0x00200002, "PSP", "RDT"),
 ("sra", "d,t,i5", 0x00000003, "MIPS1", ""),
 ("sra", "d,i5", 0x00000003, "MIPS1", "RDT"),
 ("sllv", "d,t,s", 0x00000004, "MIPS1", ""),
 ("sllv", "d,s", 0x00000004, "MIPS1", "RDT"),
 ("srlv", "d,t,s", 0x00000006, "MIPS1", ""),
 ("srlv", "d,s", 0x00000006, "MIPS1", "RDT"),
 ("rotrv", "d,t,s", 0x00000046, "PSP", ""),
 ("rotrv", "d,s", 0x00000046, "PSP", "RDT"),
 ("srav", "d,t,s", 0x00000007, "MIPS1", ""),
 ("srav", "d,s", 0x00000007, "MIPS1", "RDT"),
 ("jr", "s", 0x00000008, "MIPS1", "DELAY|NODELAYSLOT"),
 ("jalr", "s,d", 0x00000009, "MIPS1", "DELAY|NODELAYSLOT"),
 ("jalr", "s", 0x0000F809, "MIPS1", "DELAY|NODELAYSLOT"),
 ("movz", "d,s,t", 0x0000000A, "MIPS4|PS2|PSP", ""),
 ("movn", "d,s,t", 0x0000000B, "MIPS4|PS2|PSP", ""),
 ("syscall", "i20", 0x0000000C, "MIPS1|EXRSP", "NODELAYSLOT"),
 ("syscall", "", 0x0000000C, "MIPS1|EXRSP", "NODELAYSLOT"),
 ("break", "i20", 0x0000000D, "MIPS1", "NODELAYSLOT"),
 ("break", "", 0x0000000D, "MIPS1", "NODELAYSLOT"),
 ("sync", "", 0x0000000F, "MIPS2", ""),
 ("mfhi", "d", 0x00000010, "MIPS1|EXRSP", ""),
 ("mthi", "s", 0x00000011, "MIPS1|EXRSP", ""),
 ("mflo", "d", 0x00000012, "MIPS1|EXRSP", ""),
 ("mtlo", "s", 0x00000013, "MIPS1|EXRSP", ""),
 ("dsllv", "d,t,s", 0x00000014, "MIPS3", "64BIT"),
 ("dsllv", "d,s", 0x00000014, "MIPS3", "64BIT|RDT"),
 ("dsrlv", "d,t,s", 0x00000016, "MIPS3", "64BIT"),
 ("dsrlv", "d,s", 0x00000016, "MIPS3", "64BIT|RDT"),
 ("clz", "d,s", 0x00000016, "PSP", ""),
 ("dsrav", "d,t,s", 0x00000017, "MIPS3", "64BIT"),
 ("dsrav", "d,s", 0x00000017, "MIPS3", "64BIT|RDT"),
 ("clo", "d,s", 0x00000017, "PSP", ""),
 ("mult", "d,s,t", 0x00000018, "PS2", ""),
 ("multu", "d,s,t", 0x00000019, "PS2", ""),
 ("mult", "s,t", 0x00000018, "MIPS1|EXRSP", ""),
 ("mult", "r0,s,t", 0x00000018, "MIPS1|EXRSP", ""),
 ("multu", "s,t", 0x00000019, "MIPS1|EXRSP", ""),
 ("multu", "r0,s,t", 0x00000019, "MIPS1|EXRSP", ""),
 ("div", "s,t", 0x0000001A, "MIPS1|EXRSP", ""),
 ("div", "r0,s,t", 0x0000001A, "MIPS1|EXRSP", ""),
 ("divu", "s,t", 0x0000001B, "MIPS1|EXRSP", ""),
 ("divu", "r0,s,t", 0x0000001B, "MIPS1|EXRSP", ""),
 ("dmult", "s,t", 0x0000001C, "MIPS3|EXPS2", "64BIT"),
 ("dmult", "r0,s,t", 0x0000001C, "MIPS3|EXPS2", "64BIT"),
 ("madd", "s,t", 0x0000001C, "PSP", ""),
 ("dmultu", "s,t", 0x0000001D, "MIPS3|EXPS2", "64BIT"),
 ("dmultu", "r0,s,t", 0x0000001D, "MIPS3|EXPS2", "64BIT"),
 ("maddu", "s,t", 0x0000001D, "PSP", ""),
 ("ddiv", "s,t", 0x0000001E, "MIPS3|EXPS2", "64BIT"),
 ("ddiv", "r0,s,t", 0x0000001E, "MIPS3|EXPS2", "64BIT"),
 ("ddivu", "s,t", 0x0000001F, "MIPS3|EXPS2", "64BIT"),
 ("ddivu", "r0,s,t", 0x0000001F, "MIPS3|EXPS2", "64BIT"),
 ("add", "d,s,t", 0x00000020, "MIPS1", ""),
 ("add", "s,t", 0x00000020, "MIPS1", "RSD"),
 ("addu", "d,s,t", 0x00000021, "MIPS1", ""),
 ("addu", "s,t", 0x00000021, "MIPS1", "RSD"),
 ("move", "d,s", 0x00000021, "MIPS1", ""),
 ("clear", "d", 0x00000021, "MIPS1", ""),
 ("sub", "d,s,t", 0x00000022, "MIPS1", ""),
 ("sub", "s,t", 0x00000022, "MIPS1", "RSD"),
 ("neg", "d,t", 0x00000022, "MIPS1", ""),
 ("subu", "d,s,t", 0x00000023, "MIPS1", ""),
 ("subu", "s,t", 0x00000023, "MIPS1", "RSD"),
 ("negu", "d,t", 0x00000023, "MIPS1", ""),
 ("and", "d,s,t", 0x00000024, "MIPS1", ""),
 ("and", "s,t", 0x00000024, "MIPS1", "RSD"),
 ("or", "d,s,t", 0x00000025, "MIPS1", ""),
 ("or", "s,t", 0x00000025, "MIPS1", "RSD"),
 ("xor", "d,s,t", 0x00000026, "MIPS1", ""),
 ("eor", "d,s,t", 0x00000026, "MIPS1", ""),
 ("xor", "s,t", 0x00000026, "MIPS1", "RSD"),
 ("eor", "s,t", 0x00000026, "MIPS1", "RSD"),
 ("nor", "d,s,t", 0x00000027, "MIPS1", ""),
 ("nor", "s,t", 0x00000027, "MIPS1", "RSD"),
 ("not", "d,s", 0x00000027, "MIPS1", ""),
 ("mfsa", "d", 0x00000028, "PS2", ""),
 ("mtsa", "s", 0x00000029, "PS2", ""),
 ("slt", "d,s,t", 0x0000002A, "MIPS1", ""),
 ("slt", "s,t", 0x0000002A, "MIPS1", "RSD"),
 ("sgt", "d,t,s", 0x0000002A, "MIPS1", ""),
 ("sgt", "d,s", 0x0000002A, "MIPS1", "RDT"),
 ("sltu", "d,s,t", 0x0000002B, "MIPS1", ""),
 ("sltu", "s,t", 0x0000002B, "MIPS1", "RSD"),
 ("sgtu", "d,t,s", 0x0000002B, "MIPS1", ""),
 ("sgtu", "d,s", 0x0000002B, "MIPS1", "RDT"),
 ("dadd", "d,s,t", 0x0000002C, "MIPS3", "64BIT"),
 ("dadd", "s,t", 0x0000002C, "MIPS3", "64BIT|RSD"),
 ("max", "d,s,t", 0x0000002C, "PSP", ""),
 ("daddu", "d,s,t", 0x0000002D, "MIPS3", "64BIT"),
 ("daddu", "s,t", 0x0000002D, "MIPS3", "64BIT|RSD"),
 ("dmove", "d,s", 0x0000002D, "MIPS3", "64BIT"),
 ("min", "d,s,t", 0x0000002D, "PSP", ""),
 ("dsub", "d,s,t", 0x0000002E, "MIPS3", "64BIT"),
 ("dsub", "s,t", 0x0000002E, "MIPS3", "64BIT|RSD"),
 ("dneg", "d,t", 0x0000002E, "MIPS3", "64BIT"),
 ("msub", "s,t", 0x0000002E, "PSP", ""),
 ("dsubu", "d,s,t", 0x0000002F, "MIPS3", "64BIT"),
 ("dsubu", "s,t", 0x0000002F, "MIPS3", "64BIT|RSD"),
 ("dnegu", "d,t", 0x0000002F, "MIPS3", "64BIT"),
 ("msubu", "s,t", 0x0000002F, "PSP", ""),
 ("tge", "s,t,i10", 0x00000030, "MIPS2", ""),
 ("tge", "s,t", 0x00000030, "MIPS2", ""),
 ("tgeu", "s,t,i10", 0x00000031, "MIPS2", ""),
 ("tgeu", "s,t", 0x00000031, "MIPS2", ""),
 ("tlt", "s,t,i10", 0x00000032, "MIPS2", ""),
 ("tlt", "s,t", 0x00000032, "MIPS2", ""),
 ("tltu", "s,t,i10", 0x00000033, "MIPS2", ""),
 ("tltu", "s,t", 0x00000033, "MIPS2", ""),
 ("teq", "s,t,i10", 0x00000034, "MIPS2", ""),
 ("teq", "s,t", 0x00000034, "MIPS2", ""),
 ("tne", "s,t,i10", 0x00000036, "MIPS2", ""),
 ("tne", "s,t", 0x00000036, "MIPS2", ""),
 ("dsll", "d,t,i5", 0x00000038, "MIPS3", "64BIT"),
 ("dsll", "d,i5", 0x00000038, "MIPS3", "64BIT|RDT"),
 ("dsrl", "d,t,i5", 0x0000003A, "MIPS3", "64BIT"),
 ("dsrl", "d,i5", 0x0000003A, "MIPS3", "64BIT|RDT"),
 ("dsra", "d,t,i5", 0x0000003B, "MIPS3", "64BIT"),
 ("dsra", "d,i5", 0x0000003B, "MIPS3", "64BIT|RDT"),
 ("dsll32", "d,t,i5", 0x0000003C, "MIPS3", "64BIT"),
 ("dsll32", "d,i5", 0x0000003C, "MIPS3", "64BIT|RDT"),
 ("dsrl32", "d,t,i5", 0x0000003E, "MIPS3", "64BIT"),
 ("dsrl32", "d,i5", 0x0000003E, "MIPS3", "64BIT|RDT"),
 ("dsra32", "d,t,i5", 0x0000003F, "MIPS3", "64BIT"),
 ("dsra32", "d,i5", 0x0000003F, "MIPS3", "64BIT|RDT"),
 ("bltz", "s,i16", 0x04000000, "MIPS1", "IPCR|DELAY|NODELAYSLOT"),
 ("bgez", "s,i16", 0x04010000, "MIPS1", "IPCR|DELAY|NODELAYSLOT"),
 ("bltzl", "s,i16", 0x04020000, "MIPS2", "IPCR|DELAY|NODELAYSLOT"),
 ("bgezl", "s,i16", 0x04030000, "MIPS2", "IPCR|DELAY|NODELAYSLOT"),
 ("tgei", "s,i16", 0x04080000, "MIPS2", ""),
 ("tgeiu", "s,i16", 0x04090000, "MIPS2", ""),
 ("tlti", "s,i16", 0x040A0000, "MIPS2", ""),
 ("tltiu", "s,i16", 0x040B0000, "MIPS2", ""),
 ("teqi", "s,i16", 0x040C0000, "MIPS2", ""),
 ("tnei", "s,i16", 0x040E0000, "MIPS2", ""),
 ("bltzal", "s,i16", 0x04100000, "MIPS1", "IPCR|DELAY|NODELAYSLOT"),
 ("bgezal", "s,i16", 0x04110000, "MIPS1", "IPCR|DELAY|NODELAYSLOT"),
 ("bal", "i16", 0x04110000, "MIPS1", "IPCR|DELAY|NODELAYSLOT"),
 ("bltzall", "s,i16", 0x04120000, "MIPS2", "IPCR|DELAY|NODELAYSLOT"),
 ("bgezall", "s,i16", 0x04130000, "MIPS2", "IPCR|DELAY|NODELAYSLOT"),
 ("mtsab", "s,i16", 0x04180000, "PS2", ""),
 ("mtsah", "s,i16", 0x04190000, "PS2", ""),
 ("mfc0", "t,z", 0x40000000, "MIPS1|EXRSP", ""),
 ("mfc0", "t,Rz", 0x40000000, "RSP", ""),
 ("dmfc0", "t,z", 0x40200000, "MIPS3", "64BIT"),
 ("mtc0", "t,z", 0x40800000, "MIPS1|EXRSP", ""),
 ("mtc0", "t,Rz", 0x40800000, "RSP", ""),
 ("dmtc0", "t,z", 0x40A00000, "MIPS3", "64BIT"),
 ("tlbr", "", 0x42000001, "MIPS1|EXRSP", ""),
 ("tlbwi", "", 0x42000002, "MIPS1|EXRSP", ""),
 ("tlbwr", "", 0x42000006, "MIPS1|EXRSP", ""),
 ("tlbp", "", 0x42000008, "MIPS1|EXRSP", ""),
 ("rfe", "", 0x42000010, "PSX", ""),
 ("eret", "", 0x42000018, "MIPS3", ""),
 ("mfc1", "t,S", 0x44000000, "MIPS1", "FPU"),
 ("dmfc1", "t,S", 0x44200000, "MIPS3", "DFPU|64BIT"),
 ("cfc1", "t,f", 0x44400000, "MIPS1", "FPU"),
 ("mtc1", "t,S", 0x44800000, "MIPS1", "FPU"),
 ("dmtc1", "t,S", 0x44A00000, "MIPS3", "DFPU|64BIT"),
 ("ctc1", "t,f", 0x44C00000, "MIPS1", "FPU"),
 ("bc1f", "i16", 0x45000000, "MIPS1", "FPU|IPCR|DELAY|NODELAYSLOT"),
 ("bc1t", "i16", 0x45010000, "MIPS1", "FPU|IPCR|DELAY|NODELAYSLOT"),
 ("bc1fl", "i16", 0x45020000, "MIPS2", "FPU|IPCR|DELAY|NODELAYSLOT"),
 ("bc1tl", "i16", 0x45030000, "MIPS2", "FPU|IPCR|DELAY|NODELAYSLOT"),
 ("add.s", "D,S,T", 0x46000000, "MIPS1", "FPU"),
 ("add.s", "S,T", 0x46000000, "MIPS1", "FPU|FRSD"),
 ("sub.s", "D,S,T", 0x46000001, "MIPS1", "FPU"),
 ("sub.s", "S,T", 0x46000001, "MIPS1", "FPU|FRSD"),
 ("mul.s", "D,S,T", 0x46000002, "MIPS1", "FPU"),
 ("mul.s", "S,T", 0x46000002, "MIPS1", "FPU|FRSD"),
 ("div.s", "D,S,T", 0x46000003, "MIPS1", "FPU"),
 ("div.s", "S,T", 0x46000003, "MIPS1", "FPU|FRSD"),
 ("sqrt.s", "D,S", 0x46000004, "MIPS2", "FPU"),
 ("abs.s", "D,S", 0x46000005, "MIPS1", "FPU"),
 ("mov.s", "D,S", 0x46000006, "MIPS1", "FPU"),
 ("neg.s", "D,S", 0x46000007, "MIPS1", "FPU"),
 ("round.l.s", "D,S", 0x46000008, "MIPS3", "DFPU"),
 ("trunc.l.s", "D,S", 0x46000009, "MIPS3", "DFPU"),
 ("ceil.l.s", "D,S", 0x4600000A, "MIPS3", "DFPU"),
 ("floor.l.s", "D,S", 0x4600000B, "MIPS3", "DFPU"),
 ("round.w.s", "D,S", 0x4600000C, "MIPS2|EXPS2", "FPU"),
 ("trunc.w.s", "D,S", 0x4600000D, "MIPS1|EXPS2", "FPU"),
 ("ceil.w.s", "D,S", 0x4600000E, "MIPS2|EXPS2", "FPU"),
 ("floor.w.s", "D,S", 0x4600000F, "MIPS2|EXPS2", "FPU"),
 ("rsqrt.w.s", "D,S", 0x46000016, "PS2", ""),
 ("adda.s", "S,T", 0x46000018, "PS2", ""),
 ("suba.s", "S,T", 0x46000019, "PS2", ""),
 ("mula.s", "S,T", 0x4600001A, "PS2", ""),
 ("madd.s", "D,S,T", 0x4600001C, "PS2", ""),
 ("madd.s", "S,T", 0x4600001C, "PS2", "FRSD"),
 ("msub.s", "D,S,T", 0x4600001D, "PS2", ""),
 ("msub.s", "S,T", 0x4600001D, "PS2", "FRSD"),
 ("madda.s", "S,T", 0x4600001E, "PS2", ""),
 ("msuba.s", "S,T", 0x4600001F, "PS2", ""),
 ("cvt.d.s", "D,S", 0x46000021, "MIPS1", "DFPU"),
 ("cvt.w.s", "D,S", 0x46000024, "MIPS1", "FPU"),
 ("cvt.l.s", "D,S", 0x46000025, "MIPS3", "DFPU"),
 ("max.s", "D,S,T", 0x46000028, "PS2", ""),
 ("min.s", "D,S,T", 0x46000029, "PS2", ""),
 ("c.f.s", "S,T", 0x46000030, "MIPS1", "FPU"),
 ("c.un.s", "S,T", 0x46000031, "MIPS1|EXPS2", "FPU"),
 ("c.eq.s", "S,T", 0x46000032, "MIPS1", "FPU"),
 ("c.ueq.s", "S,T", 0x46000033, "MIPS1|EXPS2", "FPU"),
 ("c.olt.s", "S,T", 0x46000034, "MIPS1|EXPS2", "FPU"),
 ("c.lt.s", "S,T", 0x46000034, "PS2", ""),
 ("c.ult.s", "S,T", 0x46000035, "MIPS1|EXPS2", "FPU"),
 ("c.ole.s", "S,T", 0x46000036, "MIPS1|EXPS2", "FPU"),
 ("c.le.s", "S,T", 0x46000036, "PS2", ""),
 ("c.ule.s", "S,T", 0x46000037, "MIPS1|EXPS2", "FPU"),
 ("c.sf.s", "S,T", 0x46000038, "MIPS1|EXPS2", "FPU"),
 ("c.ngle.s", "S,T", 0x46000039, "MIPS1|EXPS2", "FPU"),
 ("c.seq.s", "S,T", 0x4600003A, "MIPS1|EXPS2", "FPU"),
 ("c.ngl.s", "S,T", 0x4600003B, "MIPS1|EXPS2", "FPU"),
 ("c.lt.s", "S,T", 0x4600003C, "MIPS1|EXPS2", "FPU"),
 ("c.nge.s", "S,T", 0x4600003D, "MIPS1|EXPS2", "FPU"),
 ("c.le.s", "S,T", 0x4600003E, "MIPS1|EXPS2", "FPU"),
 ("c.ngt.s", "S,T", 0x4600003F, "MIPS1|EXPS2", "FPU"),
 ("add.d", "D,S,T", 0x46200000, "MIPS1", "DFPU"),
 ("add.d", "S,T", 0x46200000, "MIPS1", "DFPU|FRSD"),
 ("sub.d", "D,S,T", 0x46200001, "MIPS1", "DFPU"),
 ("sub.d", "S,T", 0x46200001, "MIPS1", "DFPU|FRSD"),
 ("mul.d", "D,S,T", 0x46200002, "MIPS1", "DFPU"),
 ("mul.d", "S,T", 0x46200002, "MIPS1", "DFPU|FRSD"),
 ("div.d", "D,S,T", 0x46200003, "MIPS1", "DFPU"),
 ("div.d", "S,T", 0x46200003, "MIPS1", "DFPU|FRSD"),
 ("sqrt.d", "D,S", 0x46200004, "MIPS2", "DFPU"),
 ("abs.d", "D,S", 0x46200005, "MIPS1", "DFPU"),
 ("mov.d", "D,S", 0x46200006, "MIPS1", "DFPU"),
 ("neg.d", "D,S", 0x46200007, "MIPS1", "DFPU"),
 ("round.l.d", "D,S", 0x46200008, "MIPS3", "DFPU"),
 ("trunc.l.d", "D,S", 0x46200009, "MIPS3", "DFPU"),
 ("ceil.l.d", "D,S", 0x4620000A, "MIPS3", "DFPU"),
 ("floor.l.d", "D,S", 0x4620000B, "MIPS3", "DFPU"),
 ("round.w.d", "D,S", 0x4620000C, "MIPS2", "DFPU"),
 ("trunc.w.d", "D,S", 0x4620000D, "MIPS1", "DFPU"),
 ("ceil.w.d", "D,S", 0x4620000E, "MIPS2", "DFPU"),
 ("floor.w.d", "D,S", 0x4620000F, "MIPS2", "DFPU"),
 ("cvt.s.d", "D,S", 0x46200020, "MIPS1", "DFPU"),
 ("cvt.w.d", "D,S", 0x46200024, "MIPS1", "DFPU"),
 ("cvt.l.d", "D,S", 0x46200025, "MIPS3", "DFPU"),
 ("c.f.d", "S,T", 0x46200030, "MIPS1", "DFPU"),
 ("c.un.d", "S,T", 0x46200031, "MIPS1", "DFPU"),
 ("c.eq.d", "S,T", 0x46200032, "MIPS1", "DFPU"),
 ("c.ueq.d", "S,T", 0x46200033, "MIPS1", "DFPU"),
 ("c.olt.d", "S,T", 0x46200034, "MIPS1", "DFPU"),
 ("c.ult.d", "S,T", 0x46200035, "MIPS1", "DFPU"),
 ("c.ole.d", "S,T", 0x46200036, "MIPS1", "DFPU"),
 ("c.ule.d", "S,T", 0x46200037, "MIPS1", "DFPU"),
 ("c.sf.d", "S,T", 0x46200038, "MIPS1", "DFPU"),
 ("c.ngle.d", "S,T", 0x46200039, "MIPS1", "DFPU"),
 ("c.seq.d", "S,T", 0x4620003A, "MIPS1", "DFPU"),
 ("c.ngl.d", "S,T", 0x4620003B, "MIPS1", "DFPU"),
 ("c.lt.d", "S,T", 0x4620003C, "MIPS1", "DFPU"),
 ("c.nge.d", "S,T", 0x4620003D, "MIPS1", "DFPU"),
 ("c.le.d", "S,T", 0x4620003E, "MIPS1", "DFPU"),
 ("c.ngt.d", "S,T", 0x4620003F, "MIPS1", "DFPU"),
 ("cvt.s.w", "D,S", 0x46800020, "MIPS1", "FPU"),
 ("cvt.d.w", "D,S", 0x46800021, "MIPS1", "DFPU"),
 ("cvt.s.l", "D,S", 0x46A00020, "MIPS3", "DFPU"),
 ("cvt.d.l", "D,S", 0x46A00021, "MIPS3", "DFPU"),
 ("mfc2", "t,gs", 0x48000000, "PSX", ""),
 ("mfc2", "t,RsRo", 0x48000000, "RSP", ""),
 ("cfc2", "t,gc", 0x48400000, "PSX", ""),
 ("cfc2", "t,Rc", 0x48400000, "RSP", ""),
 ("mtc2", "t,gs", 0x48800000, "PSX", ""),
 ("mtc2", "t,RsRo", 0x48800000, "RSP", ""),
 ("ctc2", "t,gc", 0x48C00000, "PSX", ""),
 ("ctc2", "t,Rc", 0x48C00000, "RSP", ""),
 ("mfv", "t,vd", 0x48600000, "PSP", "VFPU|VFPU_SINGLE"),
 ("mfvc", "t,vc", 0x48600080, "PSP", "VFPU"),
 ("mtv", "t,vd", 0x48E00000, "PSP", "VFPU|VFPU_SINGLE"),
 ("mtvc", "t,vc", 0x48E00080, "PSP", "VFPU"),
 ("bvf", "jb,i16", 0x49000000, "PSP", "IPCR|DELAY|NODELAYSLOT"),
 ("bvf.B", "i16", 0x49000000, "PSP", "IPCR|DELAY|NODELAYSLOT"),
 ("bvt", "jb,i16", 0x49010000, "PSP", "IPCR|DELAY|NODELAYSLOT"),
 ("bvt.B", "i16", 0x49010000, "PSP", "IPCR|DELAY|NODELAYSLOT"),
 ("bvfl", "jb,i16", 0x49020000, "PSP", "IPCR|DELAY|NODELAYSLOT"),
 ("bvfl.B", "i16", 0x49020000, "PSP", "IPCR|DELAY|NODELAYSLOT"),
 ("bvtl", "jb,i16", 0x49030000, "PSP", "IPCR|DELAY|NODELAYSLOT"),
 ("bvtl.B", "i16", 0x49030000, "PSP", "IPCR|DELAY|NODELAYSLOT"),
 ("vadd.S", "vd,vs,vt", 0x60000000, "PSP", "VFPU"),
 ("vsub.S", "vd,vs,vt", 0x60800000, "PSP", "VFPU"),
 ("vsbn.s", "vd,vs,vt", 0x61000000, "PSP", "VFPU|VFPU_SINGLE"),
 ("vdiv.S", "vd,vs,vt", 0x63800000, "PSP", "VFPU"),
 ("vmul.S", "vd,vs,vt", 0x64000000, "PSP", "VFPU"),
 ("vdot.p", "vSd,vs,vt", 0x64800080, "PSP", "VFPU|VFPU_PAIR"),
 ("vdot.t", "vSd,vs,vt", 0x64808000, "PSP", "VFPU|VFPU_TRIPLE"),
 ("vdot.q", "vSd,vs,vt", 0x64808080, "PSP", "VFPU|VFPU_QUAD"),
 ("vscl.p", "vd,vs,vSt", 0x65000080, "PSP", "VFPU|VFPU_PAIR"),
 ("vscl.t", "vd,vs,vSt", 0x65008000, "PSP", "VFPU|VFPU_TRIPLE"),
 ("vscl.q", "vd,vs,vSt", 0x65008080, "PSP", "VFPU|VFPU_QUAD"),
 ("vhdp.p", "vSd,vs,vt", 0x66000080, "PSP", "VFPU|VFPU_PAIR"),
 ("vhdp.t", "vSd,vs,vt", 0x66008000, "PSP", "VFPU|VFPU_TRIPLE"),
 ("vhdp.q", "vSd,vs,vt", 0x66008080, "PSP", "VFPU|VFPU_QUAD"),
 ("vcrs.t", "vd,vs,vt", 0x66808000, "PSP", "VFPU|VFPU_TRIPLE"),
 ("vdet.p", "vSd,vs,vt", 0x67000080, "PSP", "VFPU|VFPU_PAIR"),
 ("vcmp.S", "C,vs,vt", 0x6C000000, "PSP", "VFPU"),
 ("vmin.S", "vd,vs,vt", 0x6D000000, "PSP", "VFPU"),
 ("vmax.S", "vd,vs,vt", 0x6D800000, "PSP", "VFPU"),
 ("vscmp.S", "vd,vs,vt", 0x6E800000, "PSP", "VFPU"),
 ("vsge.S", "vd,vs,vt", 0x6F000000, "PSP", "VFPU"),
 ("vslt.S", "vd,vs,vt", 0x6F800000, "PSP", "VFPU"),
 ("ext", "t,s,i5,je", 0x7C000000, "PSP", ""),
 ("ins", "t,s,i5,ji", 0x7C000004, "PSP", ""),
 ("wsbh", "d,t", 0x7C0000A0, "PSP", ""),
 ("wsbh", "d", 0x7C0000A0, "PSP", "RDT"),
 ("wsbw", "d,t", 0x7C0000E0, "PSP", ""),
 ("wsbw", "d", 0x7C0000E0, "PSP", "RDT"),
 ("seb", "d,t", 0x7C000420, "PSP", ""),
 ("seb", "d", 0x7C000420, "PSP", "RDT"),
 ("bitrev", "d,t", 0x7C000520, "PSP", ""),
 ("bitrev", "d", 0x7C000520, "PSP", "RDT"),
 ("seh", "d,t", 0x7C000620, "PSP", ""),
 ("seh", "d", 0x7C000620, "PSP", "RDT"),
 ("vcst.S", "vd,Wc", 0xD0600000, "PSP", "VFPU"),
 ("vf2in.S", "vd,vs,i5", 0xD2000000, "PSP", "VFPU"),
 ("vf2iz.S", "vd,vs,i5", 0xD2200000, "PSP", "VFPU"),
 ("vf2iu.S", "vd,vs,i5", 0xD2400000, "PSP", "VFPU"),
 ("vf2id.S", "vd,vs,i5", 0xD2600000, "PSP", "VFPU"),
 ("vi2f.S", "vd,vs,i5", 0xD2800000, "PSP", "VFPU"),
 ("vcmovt.S", "vd,vs,i5", 0xD2A00000, "PSP", "VFPU"),
 ("vcmovf.S", "vd,vs,i5", 0xD2A80000, "PSP", "VFPU"),
 ("vwbn.S", "vd,vs,i5", 0xD3000000, "PSP", "VFPU"),
 ("vmov.S", "vd,vs", 0xD0000000, "PSP", "VFPU"),
 ("vabs.S", "vd,vs", 0xD0010000, "PSP", "VFPU"),
 ("vneg.S", "vd,vs", 0xD0020000, "PSP", "VFPU"),
 ("vidt.S", "vd", 0xD0030000, "PSP", "VFPU"),
 ("vsat0.S", "vd,vs", 0xD0040000, "PSP", "VFPU"),
 ("vsat1.S", "vd,vs", 0xD0050000, "PSP", "VFPU"),
 ("vzero.S", "vd", 0xD0060000, "PSP", "VFPU"),
 ("vone.S", "vd", 0xD0070000, "PSP", "VFPU"),
 ("vrcp.S", "vd,vs", 0xD0100000, "PSP", "VFPU"),
 ("vrsq.S", "vd,vs", 0xD0110000, "PSP", "VFPU"),
 ("vsin.S", "vd,vs", 0xD0120000, "PSP", "VFPU"),
 ("vcos.S", "vd,vs", 0xD0130000, "PSP", "VFPU"),
 ("vexp2.S", "vd,vs", 0xD0140000, "PSP", "VFPU"),
 ("vlog2.S", "vd,vs", 0xD0150000, "PSP", "VFPU"),
 ("vsqrt.S", "vd,vs", 0xD0160000, "PSP", "VFPU"),
 ("vasin.S", "vd,vs", 0xD0170000, "PSP", "VFPU"),
 ("vnrcp.S", "vd,vs", 0xD0180000, "PSP", "VFPU"),
 ("vnsin.S", "vd,vs", 0xD01A0000, "PSP", "VFPU"),
 ("vrexp2.S", "vd,vs", 0xD01C0000, "PSP", "VFPU"),
 ("vrnds.S", "vd", 0xD0200000, "PSP", "VFPU"),
 ("vrndi.S", "vd", 0xD0210000, "PSP", "VFPU"),
 ("vrndf1.S", "vd", 0xD0220000, "PSP", "VFPU"),
 ("vrndf2.S", "vd", 0xD0230000, "PSP", "VFPU"),
 ("vf2h.S", "vHd,vs", 0xD0320000, "PSP", "VFPU"),
 ("vh2f.S", "vDd,vs", 0xD0330000, "PSP", "VFPU"),
 ("vlgb.S", "vd,vs", 0xD0370000, "PSP", "VFPU"),
 ("vuc2ifs.S", "vQd,vs", 0xD0380000, "PSP", "VFPU"),
 ("vc2i.S", "vQd,vs", 0xD0390000, "PSP", "VFPU"),
 ("vus2i.S", "vDd,vs", 0xD03A0000, "PSP", "VFPU"),
 ("vs2i.S", "vDd,vs", 0xD03B0000, "PSP", "VFPU"),
 ("vi2uc.S", "vFd,vs", 0xD03C0000, "PSP", "VFPU"),
 ("vi2c.S", "vFd,vs", 0xD03D0000, "PSP", "VFPU"),
 ("vi2us.S", "vHd,vs", 0xD03E0000, "PSP", "VFPU"),
 ("vi2s.S", "vHd,vs", 0xD03F0000, "PSP", "VFPU"),
 ("vsrt1.S", "vd,vs", 0xD0400000, "PSP", "VFPU"),
 ("vsrt2.S", "vd,vs", 0xD0410000, "PSP", "VFPU"),
 ("vbfy1.S", "vd,vs", 0xD0420000, "PSP", "VFPU"),
 ("vbfy2.S", "vd,vs", 0xD0430000, "PSP", "VFPU"),
 ("vocp.S", "vd,vs", 0xD0440000, "PSP", "VFPU"),
 ("vsocp.S", "vd,vs", 0xD0450000, "PSP", "VFPU"),
 ("vfad.p", "vSd,vs", 0xD0460080, "PSP", "VFPU|VFPU_PAIR"),
 ("vfad.t", "vSd,vs", 0xD0468000, "PSP", "VFPU|VFPU_TRIPLE"),
 ("vfad.q", "vSd,vs", 0xD0468080, "PSP", "VFPU|VFPU_QUAD"),
 ("vavg.p", "vSd,vs", 0xD0470080, "PSP", "VFPU|VFPU_PAIR"),
 ("vavg.t", "vSd,vs", 0xD0478000, "PSP", "VFPU|VFPU_TRIPLE"),
 ("vavg.q", "vSd,vs", 0xD0478080, "PSP", "VFPU|VFPU_QUAD"),
 ("vsrt3.S", "vd,vs", 0xD0480000, "PSP", "VFPU"),
 ("vsrt4.S", "vd,vs", 0xD0490000, "PSP", "VFPU"),
 ("vsgn.S", "vd,vs", 0xD04A0000, "PSP", "VFPU"),
 ("vmfv.S", "vs,i7", 0xD0500000, "PSP", "VFPU"),
 ("vmtv.S", "vs,i7", 0xD0510000, "PSP", "VFPU"),
 ("vmfvc.S", "vs,i7", 0xD0500080, "PSP", "VFPU"),
 ("vmtvc.S", "vs,i7", 0xD0510080, "PSP", "VFPU"),
 ("vt4444.S", "vHd,vs", 0xD0590000, "PSP", "VFPU"),
 ("vt5551.S", "vHd,vs", 0xD05A0000, "PSP", "VFPU"),
 ("vt5650.S", "vHd,vs", 0xD05B0000, "PSP", "VFPU"),
 ("vpfxs", "Ws", 0xDC000000, "PSP", ""),
 ("vpfxt", "Ws", 0xDD000000, "PSP", ""),
 ("vpfxd", "Wd", 0xDE000000, "PSP", ""),
 ("viim.s", "vt,i16", 0xDF000000, "PSP", "VFPU_SINGLE"),
 ("vfim.s", "vt,ih", 0xDF800000, "PSP", "VFPU_SINGLE"),
 ("vmmul.S", "md,ms,mt", 0xF0000000, "PSP", "VFPU|VFPU_TRANSPOSE_VS"),
 ("vtfm2.p", "vd,ms,vt", 0xF0800080, "PSP", "VFPU|VFPU_PAIR"),
 ("vhtfm2.p", "vd,ms,vt", 0xF1000080, "PSP", "VFPU|VFPU_PAIR"),
 ("vtfm3.t", "vd,ms,vt", 0xF1008000, "PSP", "VFPU|VFPU_TRIPLE"),
 ("vhtfm3.t", "vd,ms,vt", 0xF1808000, "PSP", "VFPU|VFPU_TRIPLE"),
 ("vtfm4.q", "vd,ms,vt", 0xF1808080, "PSP", "VFPU|VFPU_QUAD"),
 ("vmscl.S", "md,ms,vSt", 0xF2000000, "PSP", "VFPU"),
 ("vcrsp.t", "vd,vs,vt", 0xF2808000, "PSP", "VFPU|VFPU_TRIPLE"),
 ("vqmul.q", "vd,vs,vt", 0xF2808080, "PSP", "VFPU|VFPU_QUAD"),
 ("vrot.S", "vd,vSs,Wr", 0xF3A00000, "PSP", "VFPU"),
 ("vmmov.S", "md,ms", 0xF3800000, "PSP", "VFPU"),
 ("vmidt.S", "md", 0xF3830000, "PSP", "VFPU"),
 ("vmzero.S", "md", 0xF3860000, "PSP", "VFPU"),
 ("vmone.S", "md", 0xF3870000, "PSP", "VFPU"),
 ("vmulf", "Rd,Rs,RtRe", 0x4A000000, "RSP", ""),
 ("vmulf", "Rs,RtRe", 0x4A000000, "RSP", "RSP_VRSD"),
 ("vmulu", "Rd,Rs,RtRe", 0x4A000001, "RSP", ""),
 ("vmulu", "Rs,RtRe", 0x4A000001, "RSP", "RSP_VRSD"),
 ("vrndp", "Rd,Rs,RtRe", 0x4A000002, "RSP", ""),
 ("vrndp", "Rs,RtRe", 0x4A000002, "RSP", "RSP_VRSD"),
 ("vmulq", "Rd,Rs,RtRe", 0x4A000003, "RSP", ""),
 ("vmulq", "Rs,RtRe", 0x4A000003, "RSP", "RSP_VRSD"),
 ("vmudl", "Rd,Rs,RtRe", 0x4A000004, "RSP", ""),
 ("vmudl", "Rs,RtRe", 0x4A000004, "RSP", "RSP_VRSD"),
 ("vmudm", "Rd,Rs,RtRe", 0x4A000005, "RSP", ""),
 ("vmudm", "Rs,RtRe", 0x4A000005, "RSP", "RSP_VRSD"),
 ("vmudn", "Rd,Rs,RtRe", 0x4A000006, "RSP", ""),
 ("vmudn", "Rs,RtRe", 0x4A000006, "RSP", "RSP_VRSD"),
 ("vmudh", "Rd,Rs,RtRe", 0x4A000007, "RSP", ""),
 ("vmudh", "Rs,RtRe", 0x4A000007, "RSP", "RSP_VRSD"),
 ("vmacf", "Rd,Rs,RtRe", 0x4A000008, "RSP", ""),
 ("vmacf", "Rs,RtRe", 0x4A000008, "RSP", "RSP_VRSD"),
 ("vmacu", "Rd,Rs,RtRe", 0x4A000009, "RSP", ""),
 ("vmacu", "Rs,RtRe", 0x4A000009, "RSP", "RSP_VRSD"),
 ("vrndn", "Rd,Rs,RtRe", 0x4A00000A, "RSP", ""),
 ("vrndn", "Rs,RtRe", 0x4A00000A, "RSP", "RSP_VRSD"),
 ("vmacq", "Rd,Rs,RtRe", 0x4A00000B, "RSP", ""),
 ("vmacq", "Rs,RtRe", 0x4A00000B, "RSP", "RSP_VRSD"),
 ("vmadl", "Rd,Rs,RtRe", 0x4A00000C, "RSP", ""),
 ("vmadl", "Rs,RtRe", 0x4A00000C, "RSP", "RSP_VRSD"),
 ("vmadm", "Rd,Rs,RtRe", 0x4A00000D, "RSP", ""),
 ("vmadm", "Rs,RtRe", 0x4A00000D, "RSP", "RSP_VRSD"),
 ("vmadn", "Rd,Rs,RtRe", 0x4A00000E, "RSP", ""),
 ("vmadn", "Rs,RtRe", 0x4A00000E, "RSP", "RSP_VRSD"),
 ("vmadh", "Rd,Rs,RtRe", 0x4A00000F, "RSP", ""),
 ("vmadh", "Rs,RtRe", 0x4A00000F, "RSP", "RSP_VRSD"),
 ("vadd", "Rd,Rs,RtRe", 0x4A000010, "RSP", ""),
 ("vadd", "Rs,RtRe", 0x4A000010, "RSP", "RSP_VRSD"),
 ("vsub", "Rd,Rs,RtRe", 0x4A000011, "RSP", ""),
 ("vsub", "Rs,RtRe", 0x4A000011, "RSP", "RSP_VRSD"),
 ("vsut", "Rd,Rs,RtRe", 0x4A000012, "RSP", ""),
 ("vsut", "Rs,RtRe", 0x4A000012, "RSP", "RSP_VRSD"),
 ("vabs", "Rd,Rs,RtRe", 0x4A000013, "RSP", ""),
 ("vabs", "Rs,RtRe", 0x4A000013, "RSP", "RSP_VRSD"),
 ("vaddc", "Rd,Rs,RtRe", 0x4A000014, "RSP", ""),
 ("vaddc", "Rs,RtRe", 0x4A000014, "RSP", "RSP_VRSD"),
 ("vsubc", "Rd,Rs,RtRe", 0x4A000015, "RSP", ""),
 ("vsubc", "Rs,RtRe", 0x4A000015, "RSP", "RSP_VRSD"),
 ("vaddb", "Rd,Rs,RtRe", 0x4A000016, "RSP", ""),
 ("vaddb", "Rs,RtRe", 0x4A000016, "RSP", "RSP_VRSD"),
 ("vsubb", "Rd,Rs,RtRe", 0x4A000017, "RSP", ""),
 ("vsubb", "Rs,RtRe", 0x4A000017, "RSP", "RSP_VRSD"),
 ("vaccb", "Rd,Rs,RtRe", 0x4A000018, "RSP", ""),
 ("vaccb", "Rs,RtRe", 0x4A000018, "RSP", "RSP_VRSD"),
 ("vsucb", "Rd,Rs,RtRe", 0x4A000019, "RSP", ""),
 ("vsucb", "Rs,RtRe", 0x4A000019, "RSP", "RSP_VRSD"),
 ("vsad", "Rd,Rs,RtRe", 0x4A00001A, "RSP", ""),
 ("vsad", "Rs,RtRe", 0x4A00001A, "RSP", "RSP_VRSD"),
 ("vsac", "Rd,Rs,RtRe", 0x4A00001B, "RSP", ""),
 ("vsac", "Rs,RtRe", 0x4A00001B, "RSP", "RSP_VRSD"),
 ("vsum", "Rd,Rs,RtRe", 0x4A00001C, "RSP", ""),
 ("vsum", "Rs,RtRe", 0x4A00001C, "RSP", "RSP_VRSD"),
 ("vsar", "Rd,Rs,RtRe", 0x4A00001D, "RSP", ""),
 ("vsar", "Rs,RtRe", 0x4A00001D, "RSP", "RSP_VRSD"),
 ("vacc", "Rd,Rs,RtRe", 0x4A00001E, "RSP", ""),
 ("vacc", "Rs,RtRe", 0x4A00001E, "RSP", "RSP_VRSD"),
 ("vsuc", "Rd,Rs,RtRe", 0x4A00001F, "RSP", ""),
 ("vsuc", "Rs,RtRe", 0x4A00001F, "RSP", "RSP_VRSD"),
 ("vlt", "Rd,Rs,RtRe", 0x4A000020, "RSP", ""),
 ("vlt", "Rs,RtRe", 0x4A000020, "RSP", "RSP_VRSD"),
 ("veq", "Rd,Rs,RtRe", 0x4A000021, "RSP", ""),
 ("veq", "Rs,RtRe", 0x4A000021, "RSP", "RSP_VRSD"),
 ("vne", "Rd,Rs,RtRe", 0x4A000022, "RSP", ""),
 ("vne", "Rs,RtRe", 0x4A000022, "RSP", "RSP_VRSD"),
 ("vge", "Rd,Rs,RtRe", 0x4A000023, "RSP", ""),
 ("vge", "Rs,RtRe", 0x4A000023, "RSP", "RSP_VRSD"),
 ("vcl", "Rd,Rs,RtRe", 0x4A000024, "RSP", ""),
 ("vcl", "Rs,RtRe", 0x4A000024, "RSP", "RSP_VRSD"),
 ("vch", "Rd,Rs,RtRe", 0x4A000025, "RSP", ""),
 ("vch", "Rs,RtRe", 0x4A000025, "RSP", "RSP_VRSD"),
 ("vcr", "Rd,Rs,RtRe", 0x4A000026, "RSP", ""),
 ("vcr", "Rs,RtRe", 0x4A000026, "RSP", "RSP_VRSD"),
 ("vmrg", "Rd,Rs,RtRe", 0x4A000027, "RSP", ""),
 ("vmrg", "Rs,RtRe", 0x4A000027, "RSP", "RSP_VRSD"),
 ("vand", "Rd,Rs,RtRe", 0x4A000028, "RSP", ""),
 ("vand", "Rs,RtRe", 0x4A000028, "RSP", "RSP_VRSD"),
 ("vnand", "Rd,Rs,RtRe", 0x4A000029, "RSP", ""),
 ("vnand", "Rs,RtRe", 0x4A000029, "RSP", "RSP_VRSD"),
 ("vor", "Rd,Rs,RtRe", 0x4A00002A, "RSP", ""),
 ("vor", "Rs,RtRe", 0x4A00002A, "RSP", "RSP_VRSD"),
 ("vnor", "Rd,Rs,RtRe", 0x4A00002B, "RSP", ""),
 ("vnor", "Rs,RtRe", 0x4A00002B, "RSP", "RSP_VRSD"),
 ("vxor", "Rd,Rs,RtRe", 0x4A00002C, "RSP", ""),
 ("vxor", "Rs,RtRe", 0x4A00002C, "RSP", "RSP_VRSD"),
 ("vnxor", "Rd,Rs,RtRe", 0x4A00002D, "RSP", ""),
 ("vnxor", "Rs,RtRe", 0x4A00002D, "RSP", "RSP_VRSD"),
 ("vrcp", "RdRm,RtRl", 0x4A000030, "RSP", ""),
 ("vrcpl", "RdRm,RtRl", 0x4A000031, "RSP", ""),
 ("vrcph", "RdRm,RtRl", 0x4A000032, "RSP", ""),
 ("vmov", "RdRm,RtRl", 0x4A000033, "RSP", ""),
 ("vrsq", "RdRm,RtRl", 0x4A000034, "RSP", ""),
 ("vrsql", "RdRm,RtRl", 0x4A000035, "RSP", ""),
 ("vrsqh", "RdRm,RtRl", 0x4A000036, "RSP", ""),
 ("vnop", "", 0x4A000037, "RSP", ""),
 ("vextt", "Rd,Rs,RtRe", 0x4A000038, "RSP", ""),
 ("vextt", "Rs,RtRe", 0x4A000038, "RSP", "RSP_VRSD"),
 ("vextq", "Rd,Rs,RtRe", 0x4A000039, "RSP", ""),
 ("vextq", "Rs,RtRe", 0x4A000039, "RSP", "RSP_VRSD"),
 ("vextn", "Rd,Rs,RtRe", 0x4A00003A, "RSP", ""),
 ("vextn", "Rs,RtRe", 0x4A00003A, "RSP", "RSP_VRSD"),
 ("vinst", "Rd,Rs,RtRe", 0x4A00003C, "RSP", ""),
 ("vinst", "Rs,RtRe", 0x4A00003C, "RSP", "RSP_VRSD"),
 ("vinsq", "Rd,Rs,RtRe", 0x4A00003D, "RSP", ""),
 ("vinsq", "Rs,RtRe", 0x4A00003D, "RSP", "RSP_VRSD"),
 ("vinsn", "Rd,Rs,RtRe", 0x4A00003E, "RSP", ""),
 ("vinsn", "Rs,RtRe", 0x4A00003E, "RSP", "RSP_VRSD"),
 ("vnull", "", 0x4A00003F, "RSP", ""),
 ("lbv", "RtRo,i7(s)", 0xC8000000, "RSP", ""),
 ("lbv", "RtRo,(s)", 0xC8000000, "RSP", ""),
 ("lsv", "RtRo,i7(s)", 0xC8000800, "RSP", "RSP_HWOFFSET"),
 ("lsv", "RtRo,(s)", 0xC8000800, "RSP", "RSP_HWOFFSET"),
 ("llv", "RtRo,i7(s)", 0xC8001000, "RSP", "RSP_WOFFSET"),
 ("llv", "RtRo,(s)", 0xC8001000, "RSP", "RSP_WOFFSET"),
 ("ldv", "RtRo,i7(s)", 0xC8001800, "RSP", "RSP_DWOFFSET"),
 ("ldv", "RtRo,(s)", 0xC8001800, "RSP", "RSP_DWOFFSET"),
 ("lqv", "RtRo,i7(s)", 0xC8002000, "RSP", "RSP_QWOFFSET"),
 ("lqv", "RtRo,(s)", 0xC8002000, "RSP", "RSP_QWOFFSET"),
 ("lrv", "RtRo,i7(s)", 0xC8002800, "RSP", "RSP_QWOFFSET"),
 ("lrv", "RtRo,(s)", 0xC8002800, "RSP", "RSP_QWOFFSET"),
 ("lpv", "RtRo,i7(s)", 0xC8003000, "RSP", "RSP_DWOFFSET"),
 ("lpv", "RtRo,(s)", 0xC8003000, "RSP", "RSP_DWOFFSET"),
 ("luv", "RtRo,i7(s)", 0xC8003800, "RSP", "RSP_DWOFFSET"),
 ("luv", "RtRo,(s)", 0xC8003800, "RSP", "RSP_DWOFFSET"),
 ("lhv", "RtRo,i7(s)", 0xC8004000, "RSP", "RSP_QWOFFSET"),
 ("lhv", "RtRo,(s)", 0xC8004000, "RSP", "RSP_QWOFFSET"),
 ("lfv", "RtRo,i7(s)", 0xC8004800, "RSP", "RSP_QWOFFSET"),
 ("lfv", "RtRo,(s)", 0xC8004800, "RSP", "RSP_QWOFFSET"),
 ("ltv", "RtRo,i7(s)", 0xC8005800, "RSP", "RSP_QWOFFSET"),
 ("ltv", "RtRo,(s)", 0xC8005800, "RSP", "RSP_QWOFFSET"),
 ("sbv", "RtRo,i7(s)", 0xE8000000, "RSP", ""),
 ("sbv", "RtRo,(s)", 0xE8000000, "RSP", ""),
 ("ssv", "RtRo,i7(s)", 0xE8000800, "RSP", "RSP_HWOFFSET"),
 ("ssv", "RtRo,(s)", 0xE8000800, "RSP", "RSP_HWOFFSET"),
 ("slv", "RtRo,i7(s)", 0xE8001000, "RSP", "RSP_WOFFSET"),
 ("slv", "RtRo,(s)", 0xE8001000, "RSP", "RSP_WOFFSET"),
 ("sdv", "RtRo,i7(s)", 0xE8001800, "RSP", "RSP_DWOFFSET"),
 ("sdv", "RtRo,(s)", 0xE8001800, "RSP", "RSP_DWOFFSET"),
 ("sqv", "RtRo,i7(s)", 0xE8002000, "RSP", "RSP_QWOFFSET"),
 ("sqv", "RtRo,(s)", 0xE8002000, "RSP", "RSP_QWOFFSET"),
 ("srv", "RtRo,i7(s)", 0xE8002800, "RSP", "RSP_QWOFFSET"),
 ("srv", "RtRo,(s)", 0xE8002800, "RSP", "RSP_QWOFFSET"),
 ("spv", "RtRo,i7(s)", 0xE8003000, "RSP", "RSP_DWOFFSET"),
 ("spv", "RtRo,(s)", 0xE8003000, "RSP", "RSP_DWOFFSET"),
 ("suv", "RtRo,i7(s)", 0xE8003800, "RSP", "RSP_DWOFFSET"),
 ("suv", "RtRo,(s)", 0xE8003800, "RSP", "RSP_DWOFFSET"),
 ("shv", "RtRo,i7(s)", 0xE8004000, "RSP", "RSP_QWOFFSET"),
 ("shv", "RtRo,(s)", 0xE8004000, "RSP", "RSP_QWOFFSET"),
 ("sfv", "RtRo,i7(s)", 0xE8004800, "RSP", "RSP_QWOFFSET"),
 ("sfv", "RtRo,(s)", 0xE8004800, "RSP", "RSP_QWOFFSET"),
 ("swv", "RtRo,i7(s)", 0xE8005000, "RSP", "RSP_QWOFFSET"),
 ("swv", "RtRo,(s)", 0xE8005000, "RSP", "RSP_QWOFFSET"),
 ("stv", "RtRo,i7(s)", 0xE8005800, "RSP", "RSP_QWOFFSET"),
 ("stv", "RtRo,(s)", 0xE8005800, "RSP", "RSP_QWOFFSET"),
]
