BUGS = []
def bug(id, property, needs, what, edits, **k):
    BUGS.append(dict(id=id, property=property, needs=needs, what=what, edits=edits, **k))

bug("c01-shr-sign", "C01", "a right shift of a negative integer", ">> becomes an arithmetic shift only when the operand is negative and the amount is at least 32",
  [("Core/Expression.cpp", "result.intValue = ((uint64_t) intValue) >> other.intValue;",
    "result.intValue = other.intValue < 32 ? int64_t(((uint64_t) intValue) >> other.intValue) : intValue >> other.intValue;")],
  files={"a.asm": ".psx\n.create \"o.bin\",0\n.doubleword (-1) >> 60\n.close\n"}, expect={"o.bin": "0f00000000000000"})

bug("c01-float-le", "C01", "a comparison of a float with an integer that is not representable as int after truncation", "float <= int compares the truncated float",
  [("Core/Expression.cpp", "	case ExpressionValueCombination::FI:\n		return floatValue <= other.intValue;",
    "	case ExpressionValueCombination::FI:\n		return (int64_t)floatValue <= other.intValue;")],
  files={"a.asm": ".psx\n.create \"o.bin\",0\n.byte 2.5 <= 2, 2.0 <= 2, 3.5 <= 2\n.close\n"}, expect={"o.bin": "000100"})

bug("c02-block-comment", "C02", "a block comment directly followed by another block comment", "a block comment that starts with */ shape (/*/) is taken as already closed",
  [("Parser/Tokenizer.cpp", "			linePos += 2;\n			while(!isBlockCommentEnd(currentLine,linePos))", "			linePos += 1;\n			while(!isBlockCommentEnd(currentLine,linePos))")],
  files={"a.asm": ".psx\n.create \"o.bin\",0\n.byte 1 /*/ ,2 /*/ ,3\n.close\n"}, expect={"o.bin": "0103"})

bug("c03-be64", "C03", "a 64-bit value with differing middle bytes on a big-endian architecture", "two middle bytes of big-endian doublewords are exchanged",
  [("Core/FileManager.cpp", "((value & 0xFF00000000) >> 8) | ((value & 0xFF0000000000) >> 24) |", "((value & 0xFF00000000) >> 8) | ((value & 0xFFFF0000000000) >> 24) |")],
  files={"a.asm": ".n64\n.create \"o.bin\",0\n.doubleword 0x0102030405060708\n.close\n"}, expect={"o.bin": "0102030405060708"})

bug("c04-copy-header", "C04", ".headersize changed in a file that is opened twice", "the header size set by .headersize survives closing and reopening the same file object in the encoding pass",
  [("Core/FileManager.cpp", "	headerSize = originalHeaderSize;\n	virtualAddress = headerSize;\n\n	auto flagsOpenExisting", "	if (onlyCheck)\n		headerSize = originalHeaderSize;\n	virtualAddress = headerSize;\n\n	auto flagsOpenExisting")],
  files={"a.asm": ".psx\n.create \"o.bin\",0x100\n.org 0x104\n.word org()\n.headersize 0x104\n.word org()\n.close\n"}, expect={"o.bin": "00000000040100000c010000"})

bug("c05-create-check", "C05", "an error in a program that creates a file that already exists", "checking whether a file can be created truncates an existing file",
  [("Core/FileManager.cpp", "		exists = fs::exists(fileName, errorCode);\n\n		temp.open(fileName, exists ? flagsOpenExisting : flagsOverwrite);\n		if (!temp.is_open())\n		{\n			Logger::queueError(Logger::FatalError, \"Could not create file %s\",fileName.u8string());\n			return false;\n		}\n		temp.close();\n\n		if (!exists)\n			fs::remove(fileName, errorCode);\n\n		return true;",
    "		exists = fs::exists(fileName, errorCode);\n\n		temp.open(fileName, flagsOverwrite);\n		if (!temp.is_open())\n		{\n			Logger::queueError(Logger::FatalError, \"Could not create file %s\",fileName.u8string());\n			return false;\n		}\n		temp.close();\n\n		if (!exists)\n			fs::remove(fileName, errorCode);\n\n		return true;")],
  files={"o.bin": b"keep", "a.asm": ".psx\n.create \"o.bin\",0\n.word undefinedlabel\n.close\n"}, rc=1, expect={"o.bin": "6b656570"})

bug("c06-else-pass", "C06", "a chain of sizes that depend on later labels inside an .else branch of a label dependent condition", "changes of labels in the else branch do not cause another pass, so references keep an old address",
  [("Commands/CDirectiveConditional.cpp", "		if (elseBlock->Validate(state))\n			returnValue = true;", "		elseBlock->Validate(state);")],
  files={"a.asm": """.psx
.create "o.bin",0
.word l0
lab:
.if lab > 0x1000
.else
.fill (l2-l1)+1
l0:
l1: .fill (l4-l3)+1
l2:
l3: .fill (l6-l5)+1
l4:
l5: .byte 1
l6:
.endif
.close
"""}, expect={"o.bin": "08000000" + "00" * 9 + "01"})

bug("c07-nested-paren", "C07", "a macro argument that is a call with a parenthesised argument before a comma", "the parenthesis depth is reset by the first closing parenthesis, so the argument is split",
  [("Parser/Parser.cpp", "			--parenCount;", "			parenCount = 0;")],
  files={"a.asm": ".psx\n.create \"o.bin\",0\n.macro m,x,y\n.byte x,y\n.endmacro\n m max((3),5),7\n.close\n"}, expect={"o.bin": "0507"})

bug("c08-nested-false", "C08", "a constant true condition nested in a constant false branch that contains a definition", "definitions in a true branch nested in a false branch are executed",
  [("Parser/Parser.cpp", "	info.inTrueBlock = info.inTrueBlock && cond != ConditionalResult::False;", "	info.inTrueBlock = cond == ConditionalResult::True || (info.inTrueBlock && cond != ConditionalResult::False);")],
  files={"a.asm": ".psx\n.create \"o.bin\",0\n.if 0\n.if 1\nval equ 5\n.endif\n.endif\nval equ 7\n.byte val\n.close\n"}, expect={"o.bin": "07"})

bug("c09-range-max", "C09", "an .autoregion with a maximum address where the first region in range is full up to beyond the maximum", "the upper bound of the requested range is compared with the start of the region only",
  [("Core/Allocations.cpp", "		if (maxRange != -1 && possiblePosition > maxRange)\n			continue;", "		if (maxRange != -1 && it.first.position > maxRange)\n			continue;")],
  files={"a.asm": ".psx\n.create \"o.bin\",0\n.org 0x0\n.region 0x40\n.fill 0x20,1\n.endregion\n.org 0x80\n.autoregion 0,0x10\n.word 5\n.endautoregion\n.close\n"}, rc=1)

bug("c10-strh-post", "C10", "strh with a subtracted register offset and post-indexing", "the sign of a post-indexed register offset of halfword stores is lost",
  [("Archs/ARM/CArmInstruction.cpp", "		encoding |= (Vars.rd.num << 12);\n		if ((Opcode.flags & ARM_SIGN) && !Vars.SignPlus) encoding &= ~(1 << 23);", "		encoding |= (Vars.rd.num << 12);\n		if ((Opcode.flags & ARM_M) && (Opcode.flags & ARM_SIGN) && !Vars.SignPlus) encoding &= ~(1 << 23);")],
  files={"a.asm": ".gba\n.create \"o.bin\",0\n.arm\nstrh r0,[r1],-r2\nstrh r0,[r1,-r2]\n.close\n"}, expect={"o.bin": "b20001e0b20001e1"})

bug("c10-adr-back", "C10", "adr/add= to an address before the instruction by an amount that is a multiple of 0x100", "the sub form of a pc relative address is chosen for targets less than a page back only",
  [("Archs/ARM/CArmInstruction.cpp", "				if (Vars.Immediate < 0)\n				{\n					Vars.Opcode.NewEncoding = Opcode.encoding ^ 0xC00000;", "				if (Vars.Immediate < 0)\n				{\n					Vars.Opcode.NewEncoding = Vars.Immediate > -0x1000 ? Opcode.encoding ^ 0xC00000 : Opcode.encoding;")],
  files={"a.asm": ".gba\n.create \"o.bin\",0x8000000\n.arm\nadr r0,0x8000008-0x1000\nadr r1,0x800000c-4\n.close\n"}, expect={"o.bin": "010a4fe204104fe2"})

bug("c12-range", "C12", "an ARM literal load exactly 4096 bytes before its pool slot", "the distance check of ARM literal loads accepts 4096, which does not fit into the offset field",
  [("Archs/ARM/CArmInstruction.cpp", "	if (abs(pos) > 4095)", "	if (abs(pos) > 4096)")],
  files={"a.asm": ".gba\n.create \"o.bin\",0\n.arm\nldr r0,=0x12345678\n.fill 4100\n.pool\n.close\n"}, rc=1)

bug("c12-dedupe", "C12", "two literal loads with values that differ only in the high half, in one pool", "redundant pool values are recognised by a 16 bit key when the first value is a small number",
  [("Archs/ARM/Pool.cpp", "			if (it != usedValues.end())\n				index = it->second;", "			if (it == usedValues.end() && entry.value < 0)\n				it = usedValues.find(-entry.value);\n			if (it != usedValues.end())\n				index = it->second;")],
  files={"a.asm": ".gba\n.create \"o.bin\",0\n.thumb\nldr r0,=0x12345\nldr r1,=-0x12345\n.pool\n.close\n"}, expect={"o.bin": "0048014945230100bbdcfeff"})

bug("c11-bl-align", "C11", "a bl to a target whose distance has bit 22 boundary: exactly 4 MB backwards", "the longest backward branch is rejected and the farthest forward overflow accepted",
  [("Archs/ARM/CThumbInstruction.cpp", "if (num >= (1 << Vars.ImmediateBitLen) || num < (0-(1 << Vars.ImmediateBitLen)))", "if (num > (1 << Vars.ImmediateBitLen) || num < (0-(1 << Vars.ImmediateBitLen)))")],
  files={"a.asm": ".gba\n.create \"o.bin\",0\n.thumb\nb 2052\n.close\n"}, rc=1)

bug("c11-pc-load", "C11", "ldr rd,[address] at a halfword aligned address with the farthest target", "the range of pc relative loads is measured from the unaligned pc",
  [("Archs/ARM/CThumbInstruction.cpp", "			if (pos < 0 || pos > 1020)\n			{\n				Logger::queueError(Logger::Error, \"PC relative address out of range\");", "			if (pos < 0 || Vars.Immediate-RamPos-4 > 1022)\n			{\n				Logger::queueError(Logger::Error, \"PC relative address out of range\");")],
  files={"a.asm": ".gba\n.create \"o.bin\",0\n.thumb\nnop\nldr r0,[0x404]\n.close\n"}, rc=1)

bug("c13-rsp-neg", "C13", "an RSP vector load or store with a negative scaled offset", "the offset of quad-word RSP accesses is divided instead of shifted after an alignment check on the magnitude; small odd multiples are fine, negative ones lose a bit",
  [("Archs/MIPS/CMipsInstruction.cpp", "			immediateData.primary.value = immediateData.primary.value >> shift;\n		}", "			immediateData.primary.value = immediateData.primary.value < -0x100 ? (immediateData.primary.value >> shift) + 1 : immediateData.primary.value >> shift;\n		}")],
  files={"a.asm": ".rsp\n.create \"o.bin\",0\nlqv v1[0],-0x110(a0)\nlqv v1[0],0x110(a0)\n.close\n"}, expect={"o.bin": "c881206fc8812011"})

bug("c13-ins-size", "C13", "ins with a non-zero position and a field that ends at bit 31", "the msb field of ins is clamped to 30 for fields reaching the top bit",
  [("Archs/MIPS/CMipsInstruction.cpp", "				immediateData.secondary.value += immediateData.primary.value;\n", "				immediateData.secondary.value = std::min(immediateData.secondary.value + immediateData.primary.value, immediateData.primary.value ? 30 : 31);\n")],
  files={"a.asm": ".psp\n.create \"o.bin\",0\nins a0,a1,16,16\nins a0,a1,0,32\n.close\n"}, expect={"o.bin": "04fca47c04f8a47c"})

bug("c14-ble-zero", "C14", "an unsigned compare-and-branch macro with immediate in 0x8000..0xFFFF", "the short form of compare macros is used up to 0xFFFF for unsigned comparisons",
  [("Archs/MIPS/MipsMacros.cpp", "			.elseif (%imm% < -0x8000) || (%imm% >= 0x8000)\n				li		r1,%imm%", "			.elseif (%imm% < -0x8000) || (%imm% > 0x8000)\n				li		r1,%imm%")],
  files={"a.asm": ".psx\n.create \"o.bin\",0\nbltu a0,0x8000,0\nnop\n.close\n"}, expect={"o.bin": "008001342b088100fdff201400000000"})

bug("c14-addr-8000", "C14", "a memory macro with address 0x8000 exactly", "the one-instruction form of absolute memory accesses is used for an address that its offset cannot express",
  [("Archs/MIPS/MipsMacros.cpp", ".elseif %imm% < 0x8000 || (%imm% & 0xFFFF8000) == 0xFFFF8000", ".elseif %imm% <= 0x8000 || (%imm% & 0xFFFF8000) == 0xFFFF8000")],
  files={"a.asm": ".psx\n.create \"o.bin\",0\nsw a0,0x8000\n.close\n"}, expect={"o.bin": "0100013c008024ac"})

bug("c15-lhu-delay", "C15", "lhu without an offset directly before an instruction that reads its register", "the offset-less spelling of lhu is not marked as a delayed load",
  [("Archs/MIPS/MipsOpcodes.cpp", "	{ \"lhu\",	\"t,(s)\",			MIPS_OP(0x25),			MA_MIPS1,	MO_DELAYRT|MO_IGNORERTD },", "	{ \"lhu\",	\"t,(s)\",			MIPS_OP(0x25),			MA_MIPS1,	MO_IGNORERTD },")],
  files={"a.asm": ".psx\n.create \"o.bin\",0\n.fixloaddelay\nlhu a0,(a1)\naddiu a0,a0,1\n.close\n"}, expect={"o.bin": "0000a4940000000001008424"})

bug("c15-slot-section", "C15", "a branch, then .org, then another branch", "moving to another address does not end a delay slot, so an unrelated branch there is rejected",
  [("Archs/MIPS/Mips.cpp", "	LoadDelay = false;\n	LoadDelayRegister = 0;\n	DelaySlot = false;\n}\n\nvoid CMipsArchitecture::Revalidate", "	LoadDelay = false;\n	LoadDelayRegister = 0;\n}\n\nvoid CMipsArchitecture::Revalidate")],
  files={"a.asm": ".psx\n.create \"o.bin\",0\nb 0\n.org 8\nb 0\nnop\n.close\n"}, expect={"o.bin": "ffff001000000000fdff001000000000"})

bug("c16-disp-align", "C16", "mov.w or mov.l with a register displacement that is not a multiple of the operand size", "the alignment of displacements is checked for pc relative operands only, register displacements are rounded down silently",
  [("Archs/SuperH/CShInstruction.cpp", "if ((opflags & SH_IMM16) && (value % 2))", "if ((opflags & SH_IMM16) && (opflags & (SH_IMMREL | SH_PCRELMANUAL)) && (value % 2))")],
  files={"a.asm": ".saturn\n.create \"o.bin\",0\nmov.w r0,@(3,r1)\n.close\n"}, rc=1)

bug("c22-readascii-chunk", "C22", "readascii of a file longer than 1024 bytes with a NUL in the first 1024 bytes read", "the terminating NUL only ends the current block of the read loop",
  [("Core/ExpressionFunctions.cpp", "for (int64_t progress = 0; !stringTerminated && progress < length; progress", "for (int64_t progress = 0; progress < length; progress")],
  files={"a.asm": ".psx\n.create \"o.bin\",0\n.ascii readascii(\"f.txt\")\n.close\n", "f.txt": b"ab\0" + b"c" * 1022 + b"xyz"}, expect={"o.bin": "6162"})

bug("c22-param-float", "C22", "a user function called with a float argument whose value is integral", "integral float arguments are substituted as integers, so divisions in the body truncate",
  [("Core/ExpressionFunctionHandler.cpp", "				tok.registerReplacementFloat(paramName, paramValue.floatValue);", "				if (paramValue.floatValue == static_cast<double>(static_cast<int32_t>(paramValue.floatValue)))\n					tok.registerReplacementInteger(paramName, static_cast<int64_t>(paramValue.floatValue));\n				else\n					tok.registerReplacementFloat(paramName, paramValue.floatValue);")],
  files={"a.asm": ".psx\n.create \"o.bin\",0\n.expfunc h(x),x/2\n.double h(3.0)\n.close\n"}, expect={"o.bin": "000000000000f83f"})

bug("c17-sym-data", "C17", "two output files with data runs of different sizes at the same address", "data entries of the symbol file are identified by address and type only, so the second of two runs at one address is lost",
  [("Core/SymbolData.h", "		if (size != other.size)\n			return size < other.size;\n", "")],
  files={"a.asm": ".psx\n.create \"o.bin\",0x100\n.byte 1\n.close\n.create \"p.bin\",0x100\n.byte 1,2\n.close\n"}, script="cd $D && $A a.asm -sym s.txt && grep -q '00000100 .byt:0001' s.txt && grep -q '00000100 .byt:0002' s.txt")

bug("c17-temp-fill", "C17", "an .area with a fill value and no content, in the temp file", "the temp file gives the address of the end of the area for its fill",
  [("Commands/CDirectiveArea.cpp", "		tempData.writeLine(position+contentSize+subAreaUsage,fillString);", "		tempData.writeLine(position+(contentSize ? contentSize : areaSize)+subAreaUsage,fillString);")],
  files={"a.asm": ".psx\n.create \"o.bin\",0x100\n.area 4,1\n.endarea\n.close\n"}, script="cd $D && $A a.asm -temp t.txt && grep -q '^00000100 .fill 0x00000004,0x01' t.txt")

bug("c18-long-value", "C18", "a table entry with a value of 32 bytes, the longest supported", "values of 32 bytes are skipped as too long",
  [("Util/EncodingTable.cpp", "if (hex.empty() || value.empty() || hex.length() > 2*MAXHEXLENGTH)", "if (hex.empty() || value.empty() || hex.length() >= 2*MAXHEXLENGTH)")],
  files={"a.asm": ".psx\n.create \"o.bin\",0\n.loadtable \"t.tbl\"\n.string \"a\"\n.close\n", "t.tbl": "01" * 32 + "=a\n"}, expect={"o.bin": "01" * 32 + "00"})

bug("c18-prefix", "C18", "a table entry that is a prefix of a much longer one, and a text that follows the longer one for a while but leaves it", "the longest match forgets the last complete entry when the walk goes on for more than two characters",
  [("Util/EncodingTable.cpp", "	size_t valueNode = 0;	// remember last node that had a value\n", "	size_t valueNode = 0;	// remember last node that had a value\n	const char* start = text;\n"),
   ("Util/EncodingTable.cpp", "		if (it == lookup.end())\n			break;\n\n		node = it->second;\n	}\n	\n	if", "		if (it == lookup.end())\n			break;\n\n		node = it->second;\n		if (text - start > 3 && !nodes[node].hasValue)\n			valueNode = 0;\n	}\n	\n	if")],
  files={"a.asm": ".psx\n.create \"o.bin\",0\n.loadtable \"t.tbl\"\n.string \"abcdx\"\n.close\n", "t.tbl": "01=a\n02=b\n03=c\n04=d\n05=abcdef\n06=x\n"}, expect={"o.bin": "010203040600"})


import sys as _s, os as _o
_s.path.insert(0, _o.path.dirname(_o.path.dirname(_o.path.abspath(__file__))))
from vp import elf as _X
_ORD = ["secs", "rels", "sym", "str", "shstr", "extra"]
def _obj(cpu, big, secs, syms): return _X.relocatable(cpu, big, secs, syms, _ORD)

bug("c19-lo-addend", "C19", "an R_MIPS_HI16/LO16 pair whose addend has a low half of 0x8000 or more, and a symbol address that carries", "the low half of the addend of HI16/LO16 pairs is not sign extended",
  [("Archs/MIPS/MipsElfRelocator.cpp", "(int32_t)((hi16.opcode & 0xFFFF) << 16) + (int16_t)(lo16Opcode & 0xFFFF);", "(int32_t)((hi16.opcode & 0xFFFF) << 16) + (int32_t)(lo16Opcode & 0xFFFF);")],
  files={"a.asm": ".psx\n.create \"o.bin\",0x10000\n.definelabel Ext,0x100\n.importobj \"a.o\"\n.close\n",
         "a.o": _obj("mips", False, [_X.Sec(".text", data=bytes.fromhex("0100043c00808424"), rels=[(0, 5, 0, 0), (4, 6, 0, 0)])], [_X.Sym("Ext", sec=None)])}, expect={"o.bin": "0100043c00818424"})

bug("c19-common-align", "C19", "a common symbol that needs padding in front of it", "the padding in front of a common symbol is not reserved, so the output lacks these bytes and everything behind it is misplaced",
  [("Core/ELF/ElfRelocator.cpp", "				int64_t start = relocationAddress;\n\n				while (sym.relativeAddress != 0 && relocationAddress % sym.relativeAddress)\n					relocationAddress++;\n", "				while (sym.relativeAddress != 0 && relocationAddress % sym.relativeAddress)\n					relocationAddress++;\n\n				int64_t start = relocationAddress;\n")],
  files={"a.asm": ".psx\n.create \"o.bin\",0x10000\n.importobj \"a.o\"\n.byte 9\n.close\n",
         "a.o": _obj("mips", False, [_X.Sec(".text", data=b"\1\2\3\4")], [_X.Sym("Com", 8, 2, 1, 1, _X.COMMON)])}, expect={"o.bin": "01020304000000000000" "09"})

bug("c19-nosize", "C19", "an object that exports a THUMB function without a size (hand-written assembly)", "the label of a THUMB function of size 0 keeps bit 0 in its address",
  [("Core/ELF/ElfRelocator.cpp", "			relocator->setSymbolAddress(data,sym.relativeAddress,sym.type);\n\n			sym.relativeAddress = data.symbolAddress;", "			relocator->setSymbolAddress(data,sym.relativeAddress,sym.type);\n\n			if (sym.size != 0)\n				sym.relativeAddress = data.symbolAddress;")],
  files={"a.asm": ".gba\n.create \"o.bin\",0x10000\n.importobj \"a.o\"\n.word Fn\n.close\n",
         "a.o": _obj("arm", False, [_X.Sec(".text", data=b"\1\2\3\4")], [_X.Sym("Fn", 1, 0, 1, 2, 0)])}, expect={"o.bin": "0102030400000100"})

from vp.elf import Seg as _Seg, Sec as _Sec
def _exe(pa="zero", order=("ph", "seg", "free", "sh"), **k):
    return _X.executable("mips", False, [_Seg(0x1000, [(_Sec(".text", 1, 6, 4, b"ABCDEFGHIJKLMNOP"), b""), (_Sec(".info", 1, 2, 4, b"MODULEINFO.."), b"")], paddr=pa)], [_Sec(".comment", 1, 0, 1, b"comment!")], list(order), 0x1000, 0x10A23001, 36, **k)

bug("c20-paddr", "C20", "a PSP executable whose p_paddr points at its module info section, with a layout that changes when it is saved", "p_paddr is taken before the sections get their new file offsets, so the module info is not found any more",
  [("Core/ELF/ElfFile.cpp", "	for (int i = 0; i < (int)sections.size(); i++)\n	{\n		sections[i]->setOffsetBase(header.p_offset);\n	}\n\n	if (paddrSection)\n	{\n		header.p_paddr = paddrSection->getOffset();\n	}\n", "	if (paddrSection)\n	{\n		header.p_paddr = paddrSection->getOffset();\n	}\n\n	for (int i = 0; i < (int)sections.size(); i++)\n	{\n		sections[i]->setOffsetBase(header.p_offset);\n	}\n")],
  files={"a.asm": ".psp\n.loadelf \"in.elf\",\"out.elf\"\n.org 0x1000\n.byte \"z\"\n.close\n", "in.elf": _exe(1)},
  script="cd $D && $A a.asm && python3 -c \"import struct;d=open('out.elf','rb').read();p=struct.unpack('<I',d[28:32])[0];h=struct.unpack('<8I',d[p:p+32]);raise SystemExit(d[h[3]:h[3]+10]!=b'MODULEINFO')\"")

bug("c20-entsize", "C20", "an executable whose program header entries are larger than 32 bytes, with data behind the table", "the space for the program headers is computed from the minimal entry size, so the table overlaps what follows",
  [("Core/ELF/ElfFile.cpp", "			fileData.reserveBytes(segments.size()*fileHeader.e_phentsize);", "			fileData.reserveBytes(segments.size()*sizeof(Elf32_Phdr));")],
  files={"a.asm": ".psp\n.loadelf \"in.elf\",\"out.elf\"\n.org 0x1000\n.byte \"z\"\n.close\n", "in.elf": _X.executable("mips", False, [_Seg(0x1000, [(_Sec(".text", 1, 6, 4, b"ABCDEFGHIJKLMNOP"), b"")]), _Seg(0x2000, [(_Sec(".data", 1, 6, 4, b"abcdefghijklmnop"), b"")])], [], ["seg", "free", "ph", "sh"], 0x1000, 1, 0, phent=56)},
  script="cd $D && $A a.asm && python3 -c \"import struct;d=open('out.elf','rb').read();p,s=struct.unpack('<II',d[28:36]);raise SystemExit(s < p + 2 * 56)\"")

bug("c21-table-term", "C21", "a table file with a terminator of more than 32 bytes", "the length of the terminator of a table is not limited to the buffer it is decoded to",
  [("Util/EncodingTable.cpp", "			if (hex.empty() || hex.length() > 2*MAXHEXLENGTH)\n			{\n				// error\n				continue;\n			}\n\n			int length = parseHexString(hex,hexBuffer);\n			if (length == -1)\n			{\n				// error\n				continue;\n			}\n\n			setTermination", "			if (hex.empty())\n			{\n				// error\n				continue;\n			}\n\n			int length = parseHexString(hex,hexBuffer);\n			if (length == -1)\n			{\n				// error\n				continue;\n			}\n\n			setTermination")],
  files={"a.asm": ".psx\n.create \"o.bin\",0\n.loadtable \"t.tbl\"\n.string \"a\"\n.close\n", "t.tbl": "01=a\n/" + "00" * 20000 + "\n"}, expect={"o.bin": "0100"})

bug("c21-macro-depth", "C21", "a macro that calls itself without end", "the nesting limit only counts files, so an endless macro recursion overflows the stack",
  [("Parser/Parser.cpp", "	if (entries.size() >= 150)", "	if (!virtualFile && entries.size() >= 150)")],
  files={"a.asm": ".psx\n.create \"o.bin\",0\n.macro m,x\n.byte x\nm x\n.endmacro\nm 1\n.close\n"}, rc=1)

bug("c21-orga-nofile", "C21", ".orga while no file is open", "seeking to a file position does not check that there is an open file",
  [("Core/FileManager.cpp", "	if (!checkActiveFile())\n		return false;\n	return activeFile->seekPhysical(virtualAddress);", "	return activeFile->seekPhysical(virtualAddress);")],
  files={"a.asm": ".psx\n.create \"o.bin\",0\n.byte 1\n.close\n.orga 16\n"}, rc=1)

def _lnk(*recs): return b"LNK\x02\x2E\x07" + b"".join(bytes.fromhex(r.replace(" ", "")) if isinstance(r, str) else r for r in recs) + b"\0"
_TX = "10 0300 0000 08 05 2e74657874"
bug("c23-bss-align", "C23", "an object with two uninitialized symbols, the first with a size that is not a multiple of 4", "uninitialized symbols behind one with an odd size are not aligned any more",
  [("Archs/MIPS/PsxRelocator.cpp", "			relocationAddress += sym.size;\n			\n			while (relocationAddress % 4)\n				relocationAddress++;\n", "			relocationAddress += sym.size;\n")],
  files={"a.asm": ".psx\n.create \"o.bin\",0x80010000\n.importobj \"a.obj\"\n.word aa,bb\n.close\n", "a.obj": _lnk(_TX, "06 0300 02 0400 11223344", "30 0100 0300 06000000 02 6161", "30 0200 0300 04000000 02 6262")},
  expect={"o.bin": "11223344" + "00" * 12 + "04000180" "0c000180"})
bug("c23-enum-order", "C23", "a segment with lui/addiu pairs for two different addresses", "the order of the relocation types decides that upper halves are handled before lower halves; sorted by name it does not any more, and objects with several pairs are rejected",
  [("Archs/MIPS/PsxRelocator.h", "enum class PsxRelocationType { WordLiteral, UpperImmediate, LowerImmediate, FunctionCall };", "enum class PsxRelocationType { FunctionCall, LowerImmediate, UpperImmediate, WordLiteral };")],
  files={"a.asm": ".psx\n.create \"o.bin\",0x80010000\n.importobj \"a.obj\"\n.close\n", "a.obj": _lnk(_TX, "06 0300 02 1000 0000013c 00002124 0000023c 00004224", "0a 52 0000 2c 04 0300 00 00000000", "0a 54 0400 2c 04 0300 00 00000000", "0a 52 0800 2c 04 0300 00 00900000", "0a 54 0c00 2c 04 0300 00 00900000")},
  expect={"o.bin": "0180013c" "00002124" "0280023c" "00904224"})

# runs several command lines in one process; the runs are separated by a lone +
_RUN = """#include "Main/CommandLineInterface.h"
#include <string>
#include <vector>
int main(int argc, char** argv)
{
	std::vector<std::string> a = {"armips"};
	int rc = 0;
	for (int i = 1; i <= argc; i++)
	{
		if (i < argc && std::string(argv[i]) != "+") { a.push_back(argv[i]); continue; }
		rc = runFromCommandLine(a);
		a = {"armips"};
	}
	return rc;
}
"""
_COMPILE = "S=${ARMIPS_SRC:-/repo}; g++ -std=c++17 -w -DARMIPS_USE_STD_FILESYSTEM -I$S -I$S/ext/tinyformat run.cpp $S/Main/CommandLineInterface.cpp ${ARMIPS_LIB:-/repo/_build/libarmips.a} -o run -pthread || exit 0\n"
bug("c24-nocash", "C24", "a run with .nocash on, followed in the same process by one that uses .dw", "the no$gba meaning of .dw and .dd stays on in the next run",
  [("Core/Assembler.cpp", "	Global.nocash = false;\n", "")],
  files={"a.asm": ".psx\n.create \"o.bin\",0\n.nocash on\n.close\n", "b.asm": ".psx\n.create \"o.bin\",0\n.dw 0x12345678\n.close\n", "run.cpp": _RUN},
  script=_COMPILE + "./run b.asm || exit 1\ncp o.bin 1.bin\n./run a.asm + b.asm || exit 1\ncmp 1.bin o.bin")
bug("c24-alloc", "C24", "two runs with areas in one process, the second one with -stat", "the areas of an earlier run are still known, and counted in the statistics of the next",
  [("Core/Allocations.cpp", "	allocations.clear();\n", "")],
  files={"a.asm": ".psx\n.create \"o.bin\",0\n.area 0x40\n.word 5\n.endarea\n.close\n", "b.asm": ".psx\n.create \"o.bin\",0x200\n.area 0x10\n.word 1\n.endarea\n.close\n", "run.cpp": _RUN},
  script=_COMPILE + "./run b.asm -stat > 1.txt || exit 1\n./run a.asm + b.asm -stat > 2.txt || exit 1\ncmp 1.txt 2.txt")
bug("c24-expfunc", "C24", "a run with an .expfunc, followed by one that defines a function or label of that name", "functions defined by an earlier run stay defined",
  [("Core/Assembler.cpp", "	ExpressionFunctionHandler::instance().reset();\n", "")],
  files={"a.asm": ".psx\n.create \"o.bin\",0\n.expfunc twice(x),x*2\n.byte twice(2)\n.close\n", "b.asm": ".psx\n.create \"o.bin\",0\n.expfunc twice(x),x+x\n.byte twice(3)\n.close\n", "run.cpp": _RUN},
  script=_COMPILE + "./run b.asm || exit 1\n./run a.asm + b.asm")
bug("c24-relinc", "C24", "a run that ends with .relativeinclude on, followed by one that includes from a subdirectory", "the mode of relative includes of an earlier run stays on",
  [("Core/Assembler.cpp", "	Global.relativeInclude = false;\n", "")],
  files={"a.asm": ".psx\n.create \"o.bin\",0\n.relativeinclude on\n.close\n", "b.asm": ".psx\n.create \"o.bin\",0\n.include \"c.asm\"\n.close\n", "c.asm": ".byte 1\n", "run.cpp": _RUN},
  script=_COMPILE + "mkdir sub; cp b.asm sub; echo '.byte 2' > sub/c.asm\n./run a.asm + sub/b.asm || exit 1\n[ \"$(od -An -tx1 o.bin | tr -d ' ')\" = 01 ]")

# ---- sizes and counts
bug("c23-long-name", "C23", "a PlayStation object with a symbol name of more than 127 characters", "the length of names in PlayStation objects is read as a signed byte",
  [("Archs/MIPS/PsxRelocator.cpp", "	int len = data[pos++];\n", "	int len = (signed char) data[pos++];\n")],
  files={"a.asm": ".psx\n.create \"o.bin\",0x80010000\n.importobj \"a.obj\"\n.word " + "a" * 200 + "\n.close\n", "a.obj": _lnk(_TX, "06 0300 02 0400 11223344", b"\x0C\x01\x00\x03\x00\x00\x00\x00\x00\xC8" + b"a" * 200)},
  expect={"o.bin": "1122334400000180"})
bug("c09-crowd", "C09", "more than 16 .autoregion blocks in one region", "a region takes at most 16 blocks, later ones find no space",
  [("Core/Allocations.cpp", "		if (minRange != -1 && it.first.position + it.second.space < minRange)\n", "		if (subAreas.count(it.first) >= 16)\n			continue;\n		if (minRange != -1 && it.first.position + it.second.space < minRange)\n")],
  files={"a.asm": ".psx\n.create \"o.bin\",0\n.region 20,0\n.endregion\n" + "".join(".autoregion\n.byte %d\n.endautoregion\n" % i for i in range(20)) + ".close\n"},
  expect={"o.bin": "".join("%02x" % i for i in range(20))})
bug("c12-pool-share", "C12", "a literal pool with more than 16 different values, a later one of which is used twice", "only the first 16 values of a pool are shared, the others are stored once for every use",
  [("Archs/ARM/Pool.cpp", "			if (it != usedValues.end())", "			if (it != usedValues.end() && it->second < 16)")],
  files={"a.asm": ".gba\n.create \"o.bin\",0x8000000\n.arm\n" + "".join("ldr r0,=0x1234%04X\n" % (i * 0x101) for i in list(range(20)) + [19]) + "@@p: .pool\n@@q:\n.word @@q-@@p\n.close\n"},
  script="cd $D && $A a.asm && [ \"$(tail -c 4 o.bin | od -An -tx1 | tr -d ' ')\" = 50000000 ]")
bug("c07-wide", "C07", "a macro with more than 8 parameters", "only the first 8 parameters of a macro are replaced",
  [("Parser/Parser.cpp", "		macroTokenizer.registerReplacement(macro.parameters[i], *tokens);", "		if (i < 8) macroTokenizer.registerReplacement(macro.parameters[i], *tokens);")],
  files={"a.asm": ".psx\n.create \"o.bin\",0\n.macro m,p1,p2,p3,p4,p5,p6,p7,p8,p9\n.byte p1,p9\n.endmacro\nm 1,2,3,4,5,6,7,8,9\n.close\n"}, expect={"o.bin": "0109"})
bug("c17-line-1000", "C17", "a statement behind line 999 of a file, with -temp", "the column after the address is missing in the temp file for high line numbers",
  [("Core/Misc.cpp", "		snprintf(hexbuf, 10, \"%08X \", (int32_t) memoryAddress);", "		snprintf(hexbuf, Global.FileInfo.LineNumber > 999 ? 9 : 10, \"%08X \", (int32_t) memoryAddress);")],
  files={"a.asm": ".psx\n.create \"o.bin\",0\n" + "\n" * 1000 + ".byte 1\n.close\n"},
  script="cd $D && $A a.asm -temp t.txt && grep -q '^00000000 .byte 0x01' t.txt")
bug("c19-many-rels", "C19", "an object file with more than 256 relocations in a section", "only the first 256 relocations of a section are applied",
  [("Core/ELF/ElfRelocator.cpp", "relOffset < relSection->getSize(); relOffset", "relOffset < relSection->getSize() && relOffset < 256u*structSize; relOffset")],
  files={"a.asm": ".psx\n.create \"o.bin\",0x80010000\n.importobj \"a.o\"\n.close\n", "a.o": _X.relocatable("mips", False, [_Sec(".text", 1, 6, 4, bytes(4 * 300), None, [(4 * i, 2, 0, 0) for i in range(300)])], [_X.Sym("xx", 8, 0, 1, 0, 0)], ["secs", "rels", "sym", "str", "shstr", "extra"])},
  expect={"o.bin": "08000180" * 300})
