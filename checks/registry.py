"""property id -> (check function, evidence level, explanation, assumptions)"""
import importlib
V8 = 'V8/Node API functions behave as documented (lib/v8model.py models them); the x64 Linux configuration of binding.gyp is the one analysed'
ABS = 'path-sensitive abstract interpretation of the LLVM IR of src/yencode.cc (lib/absint.py), every path of every registered native function, helper functions inlined'
JSM = 'ECMAScript and Buffer built-ins behave as modelled in lib/jsabs.py'
JSI = 'abstract interpretation of index.js over its syntax tree (lib/jsabs.py): strings as regular languages, numbers as terms, every path'
GF2 = 'abstract interpretation of the LLVM IR in a GF(2) domain (lib/gf2.py): every bit of a value is an exact linear or bilinear form in the unknown input bits, control data affine in the loop count'
INTR = 'x86 vector intrinsics behave as modelled in lib/gf2.py; the third-party crcutil (inline assembly) is outside'
T = {
 'C01': ('bindings', 'c01', 'other', ABS + '; obligation at every call of the encode kernel: proved by a linear/floor normal form, refuted only with an arithmetic witness', [V8]),
 'C02': ('bindings', 'c02', 'other', ABS + '; obligation at every call of a decode kernel', [V8]),
 'C03': ('bindings', 'c03', 'other', ABS + '; one run per cell of a finite partition of (line size, column) by the comparisons the specification makes', [V8]),
 'C04': ('bindings', 'c04', 'other', ABS + '; typestate of every handle at each Buffer access, conversion epochs', [V8]),
 'C05': ('bindings', 'c05', 'other', ABS + '; ownership typestate of each heap block, every allocation succeeding or failing', [V8]),
 'C06': ('bindings', 'c06', 'other', ABS + '; equality of the terms reported with the terms the kernels return', [V8]),
 'C07': ('bindings', 'c07', 'other', ABS + '; result bytes compared as terms with the documented combination of the kernel operations, exponents as residues modulo 2^32-1', [V8]),
 'C09': ('whole', 'c09', 'other', 'inclusion-based points-to analysis and call graph (indirect and virtual calls resolved) over the LLVM IR of all 31 translation units; one obligation per write instruction reachable from a registered native function', [V8]),
 'C25': ('whole', 'c25', 'other', 'per kernel reachable through the dispatch pointers: points-to analysis with the input memory as its own object, one obligation per write instruction; bindings by abstract interpretation', [V8]),
 'C10': ('dispatch', 'c10', 'other', 'path-sensitive abstract interpretation of the once-only initialiser with CPUID/XCR0 as symbols; features of every function an installed pointer can reach (from its target-features and command line) against the bits the path has established', ['CPUID and XGETBV are deterministic within a process', 'architectural implications between x86 extensions (checks/dispatch.py IMPLIES)']),
 'C11': ('dispatch', 'c11', 'other', 'path-sensitive abstract interpretation of the once-only initialiser; final value of every dispatch pointer and table global per CPU class; affine loop ranges give what the initialiser fills and what the implementations read', ['allocations during initialisation succeed']),

 'C08': ('js', 'c08', 'other', 'symbolic value of maxSize/minSize as terms over (length, line size, ratio) against the rejecting paths of EncodeTo in the LLVM IR', [V8, JSM]),
 'C12': ('codec', 'c12', 'other', 'product of the decoder IR with the specification transducer, explored over sets of input bytes (lib/trans.py): every chunk boundary, carried state and length', []),
 'C13': ('codec', 'c13', 'other', 'product of every installed vector decode wrapper (its kernel summarised by a contract) with the specification transducer, lib/trans.py; wrappers equal up to renaming analysed once', ['the vector kernel decodes its own blocks as its contract says (checks/codec.py); that part is C30, not applicable']),
 'C14': ('enc', 'c14', 'other', 'product of the portable encoder and of every installed vector encode wrapper (its kernel summarised as: any prefix, encoded as specified) with the specification, lib/trans.py: line sizes 1 to 16 one by one, all larger ones together, every column, length and content', ['the vector kernel encodes its prefix as specified; that part is C30, not applicable']),
 'C15': ('crc', 'c15', 'other', GF2 + '; tables compared entry by entry, constants decided by what the kernels, the multiplication and the shift compute with them', [INTR]),
 'C16': ('crc', 'c16', 'other', GF2 + '; every alignment class and every length below the loop threshold, and induction over the main loop for all longer ones', [INTR]),
 'C17': ('js', 'c17', 'other', JSI + '; decodeChunk interpreted once per previous-state string of up to four characters over the byte classes the decoder distinguishes', [V8, JSM]),
 'C18': ('js', 'c18', 'other', JSI + '; the article is a symbolic concatenation compared with the specified one', [JSM]),
 'C19': ('js', 'c19', 'other', JSI + '; every way the filename can reach the output is a regular language that must exclude CR, LF and NUL', [JSM]),
 'C20': ('js', 'c20', 'other', JSI + '; bounded call histories from the constructor plus one generic step from every reachable instance state', [JSM]),
 'C22': ('post', 'warnings', 'other', 'posts as templates: literal text with unknown words for the field values and unknown data; from_post interpreted path by path on each (lib/jsabs.py), nothing merged; the reference decision (js/from_post_spec.js) is interpreted on from the end of every path and the sets of warning codes compared', [JSM, 'field values are words of printable ASCII characters other than the equals sign; the post is read as UTF-8, Latin-1 or ASCII; field combinations are those of the listed templates']),
 'C34': ('post', 'reading', 'other', 'posts as templates: literal text with unknown words for the field values and unknown data; from_post interpreted path by path on each (lib/jsabs.py), nothing merged; props, positions, data, checksum and error codes on every path compared as terms with those of a line-by-line reading of the template', [JSM, 'field values are words of printable ASCII characters other than the equals sign; line layouts are those of the listed templates']),
 'C23': ('js', 'c23', 'other', JSI + '; effect log of every write, by owner of the object written; reachability from every result', [JSM]),
 'C24': ('js', 'c24', 'other', 'scope resolution of every identifier and member of index.js, the native registration table from the LLVM IR and the abstract value of every export', [JSM]),
 'C26': ('look', 'c26', 'other', 'affine address analysis of every load of each decode kernel (source end, length, round number; loop induction) against the bytes its caller keeps back, and the caller itself and the portable decoders in product with the specification (lib/trans.py)', ['an aligned vector load that begins inside the input cannot fault and its surplus bytes are not input']),
 'C33': ('look', 'c33', 'other', 'per decode kernel: order of every load against the stores of its round (dataflow over the IR, affine addresses, loop induction), and stores bounded by the round (as C27); portable decoders and the callers of the kernels in product with the specification with the output in the input, lib/trans.py', ['the compiler does not use the restrict qualifiers on source and destination to move a load behind a store', 'the bindings touch the contents of their Buffers only through the decoders']),
 'C27': ('look', 'c27', 'other', 'affine address analysis of every store of each decode kernel and of how far the output moves per round; value bounds of the advance tables from the IR of their initialiser', ['the tables are filled before a kernel runs (C11)']),
}
TECH = {
 'C26': 'affine address and loop-range analysis over LLVM IR, with a product automaton for the callers',
 'C33': 'dataflow over LLVM IR (load/store order, affine addresses), with a product automaton for the callers',
 'C27': 'affine address and loop-range analysis over LLVM IR',
 'C14': 'abstract interpretation of LLVM IR in product with a specification transducer',
 'C12': 'abstract interpretation of LLVM IR in product with a specification automaton',
 'C13': 'abstract interpretation of LLVM IR in product with a specification automaton (kernel contract)',
 'C15': 'abstract interpretation of LLVM IR in a GF(2)-linear domain',
 'C16': 'abstract interpretation of LLVM IR in a GF(2)-linear domain, loop induction',
 'C08': 'abstract interpretation of index.js and LLVM IR (term comparison)',
 'C17': 'abstract interpretation of index.js over a finite partition of states',
 'C18': 'abstract interpretation of index.js (symbolic strings)',
 'C20': 'typestate/abstract interpretation of index.js over call histories',
 'C19': 'abstract interpretation of index.js (regular-language string domain)',
 'C22': 'abstract interpretation of index.js over templates with unknown fields, against a reference decision',
 'C34': 'abstract interpretation of index.js over templates with unknown fields (term comparison)',
 'C23': 'effect and escape analysis of index.js by abstract interpretation',
 'C24': 'scope and export resolution over the syntax tree',
 'C11': 'abstract interpretation of the dispatch code over LLVM IR; affine loop-range analysis',
 'C10': 'abstract interpretation of the dispatch code over LLVM IR (known-bits facts)',
 'C25': 'points-to and effect analysis over LLVM IR',
 'C09': 'points-to and effect analysis over LLVM IR',
 'C01': 'abstract interpretation of LLVM IR (linear bounds at kernel calls)',
 'C02': 'abstract interpretation of LLVM IR (linear bounds at kernel calls)',
 'C03': 'abstract interpretation of LLVM IR (finite partition of orderings)',
 'C04': 'typestate analysis of handles over LLVM IR',
 'C05': 'ownership typestate analysis over LLVM IR',
 'C06': 'value-flow analysis over LLVM IR (term equality)',
 'C07': 'value-flow analysis over LLVM IR (term equality, residues)',
}
DEFNOTE = 'Sound for every input within the stated model: all paths of the current source are interpreted abstractly, nothing is executed; trusts the clang front end, the models of V8/Node/libc calls and the abstract interpreter itself.'
NOTE = {}
FORWARD = {'C03': ['encode', 'encodeTo'], 'C06': ['encode', 'encodeTo', 'decode', 'decodeTo'], 'C07': ['crc32', 'crc32_combine', 'crc32_zeroes', 'crc32_multiply', 'crc32_shift'],
           'C24': ['encode', 'encodeTo', 'decode', 'decodeTo', 'crc32', 'crc32_combine', 'crc32_zeroes', 'crc32_multiply', 'crc32_shift']}
def get(p):
    mod, fn, level, expl, assume = T[p]
    f = getattr(importlib.import_module(mod), fn)
    if p in FORWARD:      # the statement is about the documented functions: index.js may stand between them and the binding
        def run(rep, f=f):
            f(rep); importlib.import_module('js').forwarded(rep, FORWARD[p])
        return run, level, expl + '; and the abstract value of each export: the native function itself or a function that hands it the same arguments', assume if JSM in assume else assume + [JSM]
    return f, level, expl, assume
