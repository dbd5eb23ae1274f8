#!/usr/bin/env python3
"""Writes properties.jsonl (the list below is the source)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

OUT = ["bytes of the output files", "exit status and diagnostics of the armips binary"]

p("C01", "Expressions evaluate to their documented value",
  "Every expression built from integer, floating point and string operands with the C-like operators (unary + - ~ !, binary arithmetic, shift, comparison, bitwise and logical operators, ?:, parentheses) evaluates to the value that C precedence and associativity prescribe over wrapping 64-bit integers, IEEE doubles and strings (int operands promoted to float next to a float, + concatenating strings, comparisons and logical operators giving 0 or 1). Division or modulo by zero never crashes: it yields the documented fallback value and a warning.",
  ["inputs", "programs"], "every well-formed constant expression, of any depth, operator mix and operand values including the extremes of 64-bit range",
  "Tests/Core/Expressions samples a few dozen expressions with small operands; operator/type/precedence/boundary combinations are unbounded.",
  ["Core/Expression.cpp", "Parser/ExpressionParser.cpp"],
  [("ExpressionValue operators", "Core/Expression.cpp"), ("recursive descent precedence", "Parser/ExpressionParser.cpp")],
  ["value emitted by .dd/.double/.ascii, .notice text", "warnings"])

p("C02", "Literals, comments and statement layout are read faithfully",
  "Every integer literal (decimal, 0x/0b/0o prefixed, h/b/o suffixed, either letter case), float literal, character constant and string literal with escapes denotes exactly its documented value. Comments (; // /* */), statement separators (::), line continuations (backslash), blank lines, whitespace, letter case of directives, mnemonics, registers and labels, CRLF line ends and a UTF-8 byte order mark do not change what is assembled.",
  ["inputs", "programs"], "every literal spelling and every layout-preserving rewriting of a program",
  "tests use a fixed layout and only a few literal spellings; any literal or layout can occur.",
  ["Parser/Tokenizer.cpp", "Util/Util.cpp", "Parser/Parser.cpp", "Util/FileClasses.cpp"],
  [("FileTokenizer", "Parser/Tokenizer.cpp"), ("stringToInt", "Util/Util.cpp"), ("TextFile::readLine", "Util/FileClasses.cpp")], OUT)

p("C03", "Data directives emit exactly the requested bytes",
  "For every data directive (.byte/.ascii/.halfword/.word/.doubleword and aliases, .d8/.d16/.d32/.d64, .asciiz, .float, .double) and every list of integer, float and string arguments, the output holds each value truncated to the unit size in the byte order of the current architecture, in order, one unit per string character plus the terminator where documented, and nothing else. The output position advances by exactly the number of bytes emitted.",
  ["inputs", "configurations"], "every directive and alias, architecture and argument list",
  "tests emit a handful of values on a few architectures; value, unit size, endianness and argument mix are unbounded.",
  ["Commands/CDirectiveData.cpp", "Parser/DirectivesParser.cpp", "Core/FileManager.cpp"],
  [("CDirectiveData::encodeNormal/encodeFloat/writeNormal", "Commands/CDirectiveData.cpp"), ("FileManager::writeU16/32/64", "Core/FileManager.cpp")], OUT)

p("C04", "File directives patch exactly the addressed bytes",
  "For every sequence of .open (in place or copy), .create, .close, .org, .orga, .headersize, .skip, .align, .aligna, .fill and .incbin over one or several files, with any header size, each emitted byte lands at file offset (current address - header size) of the currently open file, and org()/orga()/headersize() report that same position. All other bytes of opened files keep their original value, the source of a copying .open is never modified, and files not named by the program are untouched.",
  ["histories", "inputs"], "every history of file and position directives over any initial file contents",
  "tests cover single short sequences; the interaction of several files, header size changes, reopening and repositioning is a history property.",
  ["Core/FileManager.cpp", "Commands/CDirectiveFile.cpp", "Parser/DirectivesParser.cpp"],
  [("GenericAssemblerFile/FileManager", "Core/FileManager.cpp"), ("CDirectiveFile, CDirectivePosition, CDirectiveAlignFill, CDirectiveIncbin, CDirectiveHeaderSize, CDirectiveSkip", "Commands/CDirectiveFile.cpp")], OUT)

p("C05", "A failing assembly reports an error and leaves every output untouched",
  "Whenever a program contains an error anywhere (syntax error, undefined or duplicate symbol, operand out of range, area overflow, .error directive, missing input file, or any warning under -erroronwarning/.erroronwarning), armips prints an error naming the file and line, exits with nonzero status, and no output file has been created, truncated or modified. When there is no error it exits with status 0 and all outputs are written completely.",
  ["programs", "fault_sequences"], "every valid program with one or more faults injected at any place, and every valid program",
  "tests contain about ten error programs with the fault as the only content and never compare output files afterwards.",
  ["Core/Assembler.cpp", "Core/Misc.cpp", "Core/FileManager.cpp", "Commands/CDirectiveFile.cpp", "Main/CommandLineInterface.cpp"],
  [("encodeAssembly returns before Encode on error", "Core/Assembler.cpp"), ("Logger error state", "Core/Misc.cpp")],
  ["exit status", "directory contents before/after", "diagnostics"])

p("C06", "Every label denotes the final address of its definition",
  "In every program that assembles, each reference to a label (forward or backward, global, @static, @@local, from .definelabel, -definelabel or a .func) yields the address at which the labelled statement was finally emitted, including when alignment, conditional or variable-size statements depend on labels themselves. Static labels are visible only in their file, local labels only between the enclosing global or static labels, names are case-insensitive, and undefined or doubly defined labels in the same scope are reported as errors.",
  ["programs"], "every placement of definitions and references over files, scopes and position changes",
  "tests have single small label programs; scoping and address convergence depend on the whole program.",
  ["Core/SymbolTable.cpp", "Commands/CAssemblerLabel.cpp", "Core/Assembler.cpp", "Core/Expression.cpp", "Core/Common.cpp"],
  [("SymbolTable file/section scoping", "Core/SymbolTable.cpp"), ("fixpoint of Validate passes", "Core/Assembler.cpp"), ("CAssemblerLabel::Validate", "Commands/CAssemblerLabel.cpp")], OUT)

p("C07", "equ, macros and includes mean textual substitution",
  "Assembling a program that uses equ replacements (in source, -equ, -strequ), user macros with arguments, nested macros and .include gives the same output as assembling the program with those uses written out by hand. Local and static labels defined in a macro body are distinct for each invocation, wrong argument counts, undefined or duplicate macro or equ definitions are errors, and equ/macro definitions take effect only after their definition.",
  ["programs"], "every nesting of equ, macro and include definitions and uses",
  "tests expand a few fixed macros; substitution interacts with scoping, nesting and argument syntax in unboundedly many ways.",
  ["Parser/Parser.cpp", "Parser/Tokenizer.cpp", "Core/SymbolTable.cpp", "Parser/DirectivesParser.cpp"],
  [("Parser::parseMacroCall/parseMacroDefinition", "Parser/Parser.cpp"), ("Tokenizer equ expansion", "Parser/Tokenizer.cpp"), ("TokenStreamTokenizer/replacements", "Parser/Tokenizer.cpp")], OUT)

p("C08", "Conditional assembly selects exactly the true branch",
  "For every nesting of .if/.ifdef/.ifndef/.elseif/.elseifdef/.elseifndef/.else/.endif, exactly the statements of the first branch whose condition holds are assembled and every other branch contributes nothing (no bytes, no labels, no messages, no definitions), whether the condition is constant or depends on label addresses. Unbalanced or misordered conditional directives and non-integer conditions are errors.",
  ["programs"], "every nesting and condition, constant or address dependent",
  "tests have a few flat conditionals; nesting and address-dependent conditions that feed back into layout are unbounded.",
  ["Commands/CDirectiveConditional.cpp", "Parser/DirectivesParser.cpp", "Parser/Parser.cpp"],
  [("Parser conditional stack", "Parser/Parser.cpp"), ("CDirectiveConditional::evaluate", "Commands/CDirectiveConditional.cpp"), ("parseDirectiveConditional", "Parser/DirectivesParser.cpp")], OUT)

p("C09", "Areas and regions bound their content and never overlap",
  "For every arrangement of .area/.defineregion/.region/.autoregion, content that does not fit in its area or region is an error and content that fits is accepted; an area's fill value covers exactly the unused rest of the area. Each auto-allocated block is placed inside a region of the same file (and inside the requested address range), disjoint from every other block, region and area content, and code assembled around it is not displaced; areas whose contents overlap (starting at different addresses) are warned about and a nested area that leaves its outer area is an error.",
  ["programs", "histories"], "every set of area and region sizes, fills, positions and auto-allocated blocks",
  "tests use one or two regions with fixed sizes; allocation is a packing problem over arbitrary sizes and orders.",
  ["Commands/CDirectiveArea.cpp", "Core/Allocations.cpp", "Parser/DirectivesParser.cpp"],
  [("CDirectiveArea/CDirectiveAutoRegion", "Commands/CDirectiveArea.cpp"), ("Allocations::allocateSubArea/validateOverlap", "Core/Allocations.cpp")], OUT)

p("C10", "ARM instructions encode to the architected machine word",
  "For every supported ARM-mode instruction with legal operands (condition, S bit, registers, shifts, rotated immediates, addressing modes, register lists, PSR fields, coprocessor operands, branches), the emitted 32-bit word is the ARMv4T/ARMv5TE encoding of that instruction in the byte order of the architecture, an immediate that is not directly encodable being emitted as the complementary instruction where there is one (mov/mvn, and/bic, cmp/cmn, add/sub). Operands that have no encoding (unencodable immediates, offsets, branch targets, coprocessor operands or shift amounts out of range, the pc where it is not allowed) and, on the GBA, ARMv5 instructions are rejected with an error, never silently truncated. Immediates are read modulo 2^32.",
  ["inputs"], "all conditions x opcodes x registers x operand forms x immediate values",
  "Tests/ARM lists one fixed spelling per opcode; the operand space is about 2^32 instructions.",
  ["Archs/ARM/CArmInstruction.cpp", "Archs/ARM/ArmOpcodes.cpp", "Archs/ARM/ArmParser.cpp", "Archs/ARM/Arm.cpp"],
  [("CArmInstruction::Validate/Encode", "Archs/ARM/CArmInstruction.cpp"), ("ArmOpcodes table", "Archs/ARM/ArmOpcodes.cpp"), ("ArmParser::parseArmParameters", "Archs/ARM/ArmParser.cpp")], OUT)

p("C11", "THUMB instructions encode to the architected machine code",
  "For every THUMB instruction with legal operands, the emitted halfword (or halfword pair for bl/blx) is the ARMv4T/v5T encoding of that instruction, with branch displacements leading exactly to the target address. Operands that have no encoding (register, immediate range, alignment or branch distance) are rejected with an error, never silently truncated. Operand values are read modulo 2^32.",
  ["inputs"], "all opcodes x registers x immediates x branch distances",
  "Tests/ARM lists one fixed spelling per opcode; registers, immediates and displacements are not varied.",
  ["Archs/ARM/CThumbInstruction.cpp", "Archs/ARM/ThumbOpcodes.cpp", "Archs/ARM/ArmParser.cpp"],
  [("CThumbInstruction::Validate/Encode", "Archs/ARM/CThumbInstruction.cpp"), ("ThumbOpcodes table", "Archs/ARM/ThumbOpcodes.cpp")], OUT)

p("C12", "ldr =value loads that value, through a mov or a reachable pool slot",
  "After every ARM or THUMB `ldr rX,=value` in a program that assembles, executing the emitted instruction puts exactly that 32-bit value into rX: it is either a mov/mvn of the value or a PC-relative load whose target is a word inside the next .pool holding the value. Pools are word aligned, contain each distinct value once (as long as the layout settles within the first ten passes), do not disturb the surrounding code, and a value whose pool is missing or out of range is an error.",
  ["programs"], "every sequence of literal loads, code, data, alignment and pools in both instruction sets",
  "tests have one or two pools with a few values; distances, alignment, duplication and label-valued literals vary with the program.",
  ["Archs/ARM/Pool.cpp", "Archs/ARM/Arm.cpp", "Archs/ARM/CArmInstruction.cpp", "Archs/ARM/CThumbInstruction.cpp"],
  [("ArmPoolCommand / ArmArchitecture::addPoolValue", "Archs/ARM/Pool.cpp, Archs/ARM/Arm.cpp"), ("pool entry application", "Archs/ARM/CArmInstruction.cpp setPoolAddress")], OUT)

p("C13", "MIPS instructions encode to the architected machine word",
  "For every instruction of the selected MIPS variant (PSX, N64, RSP, PS2, PSP including FPU, COP0/2, MMI, VFPU and RSP vector units) with legal operands, the emitted word is that variant's encoding in the variant's byte order, with branch and jump fields leading exactly to the target. Instructions the variant does not have, misaligned code and operands out of range (immediates, shift amounts, registers, branch distance) are rejected with an error, never silently truncated.",
  ["inputs", "configurations"], "all variants x opcodes x registers x immediates x targets",
  "Tests/MIPS lists one fixed spelling of some opcodes; several hundred opcodes with free operands over five variants are not sampled.",
  ["Archs/MIPS/MipsOpcodes.cpp", "Archs/MIPS/CMipsInstruction.cpp", "Archs/MIPS/MipsParser.cpp", "Archs/MIPS/Mips.cpp"],
  [("MipsOpcodes table", "Archs/MIPS/MipsOpcodes.cpp"), ("CMipsInstruction::Validate/encodeNormal/encodeVfpu", "Archs/MIPS/CMipsInstruction.cpp"), ("MipsParser operand readers", "Archs/MIPS/MipsParser.cpp")], OUT)

p("C14", "MIPS macros compute what they document, for every operand",
  "Executing the code emitted for each assembler-defined MIPS macro (li, la, li.s, memory access with absolute addresses and its unaligned and .u/.l variants, compare-and-branch, set, rotate, abs) has the documented effect for every immediate, address, register and machine state: the destination gets the right value, memory is accessed at the right address and width, the branch is taken exactly when the comparison holds. Only the documented destination and the assembler temporary (r1, not used as an operand) change.",
  ["inputs", "programs"], "all macros x register choices x immediates/addresses x register and memory contents",
  "Tests/MIPS compares the expansion of a few operand choices byte for byte; carry between upper and lower half, sign extension and register overlap depend on the values.",
  ["Archs/MIPS/MipsMacros.cpp", "Archs/MIPS/MipsParser.cpp", "Archs/MIPS/MipsExpressionFunctions.cpp"],
  [("macro templates and MipsMacros table", "Archs/MIPS/MipsMacros.cpp"), ("hi()/lo()", "Archs/MIPS/MipsExpressionFunctions.cpp")], OUT)

p("C15", "Load-delay and delay-slot hazards are detected and fixed",
  "On PSX, every program in which an instruction reads a general register directly after the load from memory that writes it (labels and non-emitting statements in between do not matter; data, .org and the like in between end the sequence; lwl and lwr may follow a load of the register they merge into) is reported with a warning at that instruction, or, under .fixloaddelay, has exactly one nop inserted there, giving the same output as the program with those nops written out; instructions without the hazard get no warning and no nop, and other MIPS variants get none at all. .resetdelay ends the current load delay. A jump or branch directly after another one, in its delay slot, is an error on every MIPS variant, and nothing else is; a macro that expands to several instructions in a delay slot is warned about.",
  ["programs"], "every instruction sequence and every surrounding of the hazards, with and without .fixloaddelay",
  "tests cover a couple of instruction pairs; the property is over all pairs of loads and consumers and their surroundings.",
  ["Archs/MIPS/CMipsInstruction.cpp", "Archs/MIPS/Mips.cpp", "Archs/MIPS/MipsParser.cpp", "Archs/MIPS/MipsMacros.cpp"],
  [("CMipsInstruction::Validate previous-instruction hazard check", "Archs/MIPS/CMipsInstruction.cpp"), ("MO_DELAYRT / MO_NODELAYSLOT opcode flags", "Archs/MIPS/MipsOpcodes.cpp")], OUT)

p("C16", "SuperH instructions encode to the architected halfword",
  "For every SH-2 instruction with legal operands, the emitted big-endian halfword is the architected encoding, with PC-relative displacements leading exactly to the target. Operands that have no encoding (range, alignment, misaligned code) are rejected with an error, never silently truncated. Operand values are read modulo 2^32.",
  ["inputs"], "all opcodes x registers x immediates x displacements",
  "Tests/SuperH lists one fixed spelling per opcode.",
  ["Archs/SuperH/ShOpcodes.cpp", "Archs/SuperH/CShInstruction.cpp", "Archs/SuperH/ShParser.cpp"],
  [("ShOpcodes table", "Archs/SuperH/ShOpcodes.cpp"), ("CShInstruction::Validate/Encode", "Archs/SuperH/CShInstruction.cpp")], OUT)

p("C17", "Symbol and temp files describe the produced output exactly",
  "For every program, the -sym/-sym2 file lists, in address order, exactly the labels (global, static, local, defined by .definelabel, .func or in a macro), data runs with their unit and size, ARM/THUMB state changes and literal pools that the program finally assembled, each with its final address and except those in ranges after .sym off; in -sym2 the label of a function carries the function's size. The -temp file lists, in order, every statement finally assembled (data with the emitted values, labels, instructions, position directives, areas, fills, pools) with its final address, file and line, nothing of branches not taken, and the files included; the listed text of a MIPS CPU or FPU instruction assembles to the same machine word. -stat reports the number of bytes used and available in areas, regions and pools. Requesting these files or -stat, or running again, never changes the assembled output, which is a function of the input files and arguments alone.",
  ["programs", "configurations"], "every program and combination of output options",
  "tests never request -sym/-sym2/-temp.",
  ["Core/SymbolData.cpp", "Core/Assembler.cpp", "Core/Misc.cpp", "Commands/CAssemblerLabel.cpp", "Main/CommandLineInterface.cpp"],
  [("SymbolData::writeNocashSym/writeSymFile", "Core/SymbolData.cpp"), ("TempData", "Core/Misc.cpp")],
  ["contents of the symbol and temp files", "output bytes with and without the options"])

p("C18", "Text is encoded by the loaded table, longest match first",
  "For every well-formed table file (hex=text entries and /hex terminator lines, later lines for the same text replacing earlier ones) and every string of Unicode characters, .string/.stringn emit the concatenation of the table's byte sequences for the greedy longest-match segmentation of the string, integer arguments as one byte, followed by the table's terminator for .string; a string that cannot be segmented, or that comes before any .loadtable, is an error, and the table in force is the one loaded last before the directive. .sjis/.sjisn emit the Shift-JIS (cp932) encoding with or without terminator. Source files and tables in UTF-8 (with or without byte order mark), UTF-16 of either byte order, Shift-JIS or ASCII, recognised by byte order mark or given by the encoding parameter of .include or .loadtable, are decoded to the same characters.",
  ["inputs"], "every table (entry lengths, overlapping prefixes, byte lengths, reloads) and every string",
  "tests have no table; prefix overlaps, multi-byte values and reloads are unbounded.",
  ["Util/EncodingTable.cpp", "Commands/CDirectiveData.cpp", "Util/FileClasses.cpp"],
  [("Trie / EncodingTable::encodeString", "Util/EncodingTable.cpp"), ("TextFile::readCharacter", "Util/FileClasses.cpp")], OUT)

p("C19", "Imported object files are linked correctly",
  "For every valid ELF relocatable object or ar archive of such objects given to .importobj/.importlib (ARM and MIPS with REL, SuperH with RELA relocations; no two units define the same symbol), all allocated program sections are placed from the current address on, in order, each aligned as it demands and disjoint from the others, followed by the unit's common symbols; every relocation is applied so that it refers to the final address of its symbol (local, section, absolute, common, exported by any unit, or provided by an assembly label), with its addend and, on ARM, the right branch kind for the target's mode; exported symbols become labels with their final addresses. Undefined symbols, duplicate labels, unknown relocation types, wrong machine or byte order, and ARM/THUMB branches that cannot reach or switch to their target are errors. With a constructor name, the generated routine calls every .ctors/.init_array entry exactly once in order and returns with all callee-saved registers intact.",
  ["inputs", "programs"], "every object layout, symbol binding and supported relocation with any addend and placement",
  "tests import no object file at all.",
  ["Core/ELF/ElfRelocator.cpp", "Core/ELF/ElfFile.cpp", "Archs/ARM/ArmElfRelocator.cpp", "Archs/MIPS/MipsElfRelocator.cpp", "Archs/SuperH/ShElfRelocator.cpp"],
  [("ElfRelocator::init/exportSymbols/relocate", "Core/ELF/ElfRelocator.cpp"), ("relocateOpcode", "Archs/*/…ElfRelocator.cpp")], OUT)

p("C20", "Patching a loaded ELF executable changes only the addressed bytes",
  "For every ELF executable (type ET_EXEC, segments that do not overlap) opened with .loadelf, data emitted at a memory address (.org; the start of the first non-empty segment to begin with) or file position of a segment (.orga) replaces exactly the bytes that the executable's loader maps at that address, also across several .loadelf blocks for the same file; all other segment and section contents, sizes, names, header fields and symbols are preserved in the saved executable, although file offsets may change consistently (p_paddr follows the section it points to); an input file is unchanged when an output name is given. org() and orga() give the memory address and the position in the loaded file. Writing outside of the segments' file contents, other ELF types and files that cannot be read or written are errors.",
  ["inputs", "histories"], "every segment/section layout and every history of writes",
  "tests never use .loadelf.",
  ["Archs/MIPS/MipsElfFile.cpp", "Core/ELF/ElfFile.cpp"],
  [("MipsElfFile::seekVirtual/write", "Archs/MIPS/MipsElfFile.cpp"), ("ElfFile::load/save", "Core/ELF/ElfFile.cpp")], OUT)

p("C21", "No input makes armips crash, hang or corrupt memory",
  "For every source file, included file, table, binary or object file and ELF executable of any content, valid or not, and every command line, armips terminates with exit status 0 or 1: it does not crash, abort on an uncaught exception, overflow the stack, access memory out of bounds, dereference null or run forever. Malformed object files, archives, executables, tables and text encodings are rejected or read within their bounds, endless macro, include and function recursion ends with an error, and so do expressions that are nested too deeply. Time and memory stay bounded by what the program asks for (sizes, counts, alignments, exponential recursion and regular expressions are its own responsibility). Wrap-around of integer arithmetic is not covered.",
  ["inputs"], "every byte string as source text and every structured mutation of valid programs",
  "tests feed a few dozen well-formed or slightly wrong programs.",
  ["Parser/Parser.cpp", "Parser/Tokenizer.cpp", "Core/Expression.cpp", "Core/ExpressionFunctions.cpp", "Core/ELF/ElfFile.cpp", "Commands/CDirectiveFile.cpp"],
  [("error recovery in Parser", "Parser/Parser.cpp"), ("maximum nesting depth", "Parser/Parser.cpp")],
  ["termination status under AddressSanitizer/UBSan"])

p("C22", "Built-in and user-defined expression functions return their documented value",
  "Every call of a documented built-in function (version/endianness/outputname, string and regular expression functions, min/max/abs/round/frac and the conversions int/float/tostring/tohex, fileexists/filesize and the read functions, org/orga/headersize/defined, hi/lo on MIPS, isarm/isthumb on ARM) returns the documented value for all arguments in its domain, with names in any case, and reports an error, not a wrong value, for arguments of a wrong type or count or outside its domain (positions beyond the end of a string or file, missing files, values that do not fit). A user-defined function (.expfunc), including recursive ones (fewer than 1000 nested calls), returns the value of its body with the parameters replaced by the argument values, in any nesting of calls. A call in the operand of ?: that is not selected, or in a conditional block that is not assembled, has no effect and raises no error because of its value. Strings are ASCII; negative counts and search positions are not covered.",
  ["inputs", "programs"], "every function, argument value and nesting",
  "tests call a few functions with one or two argument values.",
  ["Core/ExpressionFunctions.cpp", "Core/ExpressionFunctionHandler.cpp", "Archs/MIPS/MipsExpressionFunctions.cpp", "Archs/ARM/ArmExpressionFunctions.cpp"],
  [("expressionFunctions table", "Core/ExpressionFunctions.cpp"), ("UserFunctionEntry", "Core/ExpressionFunctionHandler.cpp")],
  ["value emitted by data directives"])

p("C23", "Imported PlayStation object files and libraries are linked correctly",
  "For every PlayStation (PsyQ, LNK version 2) object file, alone or in a library (LIB), imported with .importobj or .importlib under .psx, the output contains, from the current address on, the data of its segments object by object in the order of definition, each starting at a multiple of 4, followed by zeroed room for its uninitialized symbols, and every word, jump, upper half and lower half relocation holds the final address of its expression (a symbol of the object, of another object or of the assembly code, or a segment, plus and minus constants), where each lui/lower half pair adds up to that address. Exported and uninitialized symbols are labels with those (unsigned) addresses, usable before and behind the import and listed in the symbol file. Undefined external symbols, relocations of unknown symbols or outside of the data, unknown segments, records and relocation types, truncated objects and names that are already defined are errors.",
  ["inputs", "programs"], "every object, library and order of symbols and relocations",
  "tests never import a PlayStation object.",
  ["Archs/MIPS/PsxRelocator.cpp", "Archs/MIPS/MipsElfRelocator.cpp", "Archs/MIPS/MipsParser.cpp"],
  [("PsxRelocator::parseObject/relocateFile", "Archs/MIPS/PsxRelocator.cpp"), ("parseDirectiveImportObj", "Archs/MIPS/MipsParser.cpp")], OUT)

p("C24", "Runs in one process do not affect each other",
  "In every sequence of runs in one process (runFromCommandLine or runArmips, reading the source from a file or from memory, successful or not), the result of each run - return value, messages, output, temp and symbol files, memory written - depends only on its own arguments and files, not on the runs before it, and equals that of the same run alone in a fresh process. A silent run prints nothing; errorsResult receives exactly the messages the run reports, also when it stops early; a run through the library with the same settings gives the same result as the command line; and assembling a source from memory into a memory file gives the same bytes, labels and messages as assembling the same source from a file into a file created with .create.",
  ["histories", "configurations"], "every sequence of runs with any programs and settings",
  "the tests start a new process for each program; state that leaks from one run to the next cannot show.",
  ["Core/Assembler.cpp", "Main/CommandLineInterface.cpp", "Core/Common.cpp", "Core/SymbolTable.cpp", "Parser/Parser.cpp", "Util/Util.cpp"],
  [("runArmips", "Core/Assembler.cpp"), ("runFromCommandLine", "Main/CommandLineInterface.cpp")],
  ["return value, messages and errorsResult", "files and memory written"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P))
