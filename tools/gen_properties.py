#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

ONLY2 = ("The only tests that run in this tree are two fixed comment-stripping examples; the repository's own "
         "contract tests need an external VM and solc and each sample one hand-picked contract. ")

prop("C01", "Compiled contract behaves as its Yul source: control flow, scopes, functions",
 "For every well-formed Yul object, deploying and calling the compiled wasm contract ends the same way (return, revert, stop, invalid) with the same data and the same storage, log and call trace as the Yul/EVM semantics of the source. This covers blocks and variable scoping, shadow-free redeclaration in sibling blocks, if, switch (with and without default), for loops with break and continue, leave, user functions with zero, one or many return values, recursion, and evaluation of side effects in source order as Yul defines it. A contract that was accepted by the compiler never silently changes meaning.",
 ["programs", "inputs", "configurations"], "all well-formed Yul objects within the supported builtins, all calldata and initial state",
 ONLY2 + "Semantic preservation is a statement over every program and every input; a fixed contract exercises one path of one program.",
 ["src/yul2ir/transform.rs", "src/yul2ir/instruction.rs", "src/yul2ir/context.rs", "src/yul2ir/var_scope.rs", "src/yul2ir/infer.rs", "src/yul2ir/usage.rs"],
 [("statement and expression lowering", "src/yul2ir/transform.rs"), ("variable scopes", "src/yul2ir/var_scope.rs"), ("wasm emission and linking", "src/yul2ir/wasm.rs")],
 ["host calls made by the compiled wasm: finish, revert, storageStore, emitLogEvent, callContract"])

prop("C02", "256-bit arithmetic builtins equal the EVM's for every operand",
 "add, sub, mul, div, sdiv, mod, smod, exp, addmod, mulmod and signextend give exactly the EVM result modulo 2^256 for all operand values, including zero divisors, the most negative dividend, and any exponent or byte index. The result does not depend on whether an operand is a literal, a narrow intermediate, a 256-bit integer or a 32-byte big-endian value. The runtime library's arithmetic routines give the same results when called directly and read and write nothing outside their operand and result buffers.",
 ["inputs", "programs"], "all pairs or triples of 256-bit operands, in every representation the compiler may choose",
 ONLY2 + "The operand space is 2^512 and the interesting failures sit on boundaries (zero divisor, sign bit, carries between words, narrow representations) that a sample of constants misses.",
 ["stdlib/chain.c", "stdlib/chain_math.c", "src/yul2ir/instruction.rs", "src/yul2ir/context.rs"],
 [("integer lowering and width unification", "src/yul2ir/instruction.rs"), ("runtime exp, signextend, bytes32 add, addmod, mulmod", "stdlib/chain.c, stdlib/chain_math.c")],
 ["return value of the compiled contract", "result buffer of each runtime helper"])

prop("C03", "Comparison, bitwise, byte and shift builtins equal the EVM's for every operand",
 "lt, gt, slt, sgt, eq, iszero, and, or, xor, not, byte, shl, shr and sar give exactly the EVM result for all 256-bit operands, with shift amounts and byte indexes of 256, 32 or more giving the EVM's saturated answer. The result does not depend on whether an operand is a literal, a narrow intermediate, a 256-bit integer or a 32-byte big-endian value. The runtime library's comparison, bitwise and shift routines give the same results when called directly, including those the compiler does not select today, and read and write nothing outside their operand and result buffers.",
 ["inputs", "programs"], "all pairs of 256-bit operands, all shift amounts and byte indexes, in every representation",
 ONLY2 + "Signed order, byte order within words, carries across byte and word boundaries and saturated shifts fail only on particular operand shapes.",
 ["stdlib/chain_math.c", "src/yul2ir/instruction.rs", "src/yul2ir/context.rs"],
 [("big-endian 32-byte comparison, logic and shifts", "stdlib/chain_math.c"), ("comparison and shift lowering", "src/yul2ir/instruction.rs")],
 ["return value of the compiled contract", "result buffer of each runtime helper"])

prop("C04", "Contract memory is byte-addressed, big-endian and changed only where written",
 "A read of contract memory returns, for every byte, the last value stored there by mstore, mstore8, mcopy or a copy builtin (zero if none), with words in big-endian order, whatever mix of word, narrow and byte stores produced it. A store changes exactly the bytes it addresses, overlapping copies behave as if buffered, and hashing, returning, reverting and logging see exactly the addressed bytes. The runtime library's typed store, load and copy routines obey the same rule when called directly.",
 ["inputs", "histories"], "all sequences of memory operations at all offsets and sizes within the runtime's memory",
 ONLY2 + "The property ranges over histories of overlapping, unaligned, differently sized accesses; tests write a slot and read the same slot back.",
 ["stdlib/chain.c", "stdlib/evm_memory.c", "stdlib/stdlib.c"],
 [("typed store and load helpers", "stdlib/chain.c"), ("memory base and growth", "stdlib/evm_memory.c"), ("byte copy and fill", "stdlib/stdlib.c")],
 ["linear memory after every operation", "data handed to keccak256, finish, revert, emitLogEvent"],
 [("evm memory region", "start, accessible size and reserved size of contract memory", "stdlib/evm_memory.c")])

prop("C05", "Memory growth and scratch cells never overlap other live data",
 "Growing contract memory keeps its contents (the region itself may move) and gives zeroed new bytes that belong to no other live object, and the reported size is at least what was requested. Every 32-byte scratch cell handed out by the runtime is distinct, inside linear memory and disjoint from contract memory, static data and every earlier cell, in any interleaving of growth and cell allocation. This also holds for the allocator routines called directly.",
 ["histories", "inputs"], "all interleavings of memory growth requests and scratch-cell allocations from either initial layout",
 ONLY2 + "Overlaps appear only after hundreds of allocations or when growth and allocation interleave around a page boundary.",
 ["stdlib/evm_memory.c", "stdlib/chain.c"],
 [("memory region initialisation and growth", "stdlib/evm_memory.c"), ("scratch cell allocator", "stdlib/chain.c")],
 ["addresses returned by the allocators", "linear memory size"],
 [("scratch cell pool", "static cells first, then grown pages", "stdlib/chain.c")])

prop("C06", "Storage, transient storage and immutables hold the last value written",
 "A load from storage or transient storage passes the host exactly the 32-byte big-endian slot and yields exactly the 32-byte value last stored to that slot, for every slot and value, and never touches another slot; the little-endian host interface carries the same slot and value. An immutable set during deployment is what every later load yields, differently named immutables never share a value, and setting one twice is refused without changing it. The runtime library's typed storage routines obey the same rule when called directly.",
 ["inputs", "histories", "configurations"], "all slots, values and sequences of stores and loads, both storage host interfaces",
 ONLY2 + "Slot and value encodings are correct only if every one of the 64 bytes is, for every slot and each representation; tests store one small number.",
 ["stdlib/chain.c", "src/yul2ir/instruction.rs", "src/yul2ir/transform.rs"],
 [("storage wrappers", "stdlib/chain.c"), ("immutable slot and set-once flag", "stdlib/chain.c")],
 ["storageLoad, storageStore, their little-endian forms, transientLoad, transientStore"])

prop("C07", "Calldata, code and return data reads are exact and zero-padded",
 "calldataload, calldatacopy, calldatasize and the selector read give exactly the transaction's input bytes, with zeros for every byte past its end, for any offset and length and any input size, however often and in whatever order they are used. Code copy, external code copy and return data copy place exactly the requested bytes at the requested memory position and nowhere else. An access to memory at 2 GiB or beyond halts the contract. The runtime library's copy routines obey the same rule when called directly.",
 ["inputs", "histories"], "all inputs of any size, all offsets and lengths, all orders of reads",
 ONLY2 + "Short, empty and over-long inputs, offsets at, around and far beyond the end, and the caching of small inputs are boundary conditions over two unbounded numbers.",
 ["stdlib/chain.c", "src/yul2ir/instruction.rs"],
 [("calldata cache", "stdlib/chain.c"), ("copy wrappers", "stdlib/chain.c")],
 ["callDataCopy, codeCopy, externalCodeCopy, returnDataCopy arguments", "linear memory after the operation"],
 [("calldata cache", "cached size and first bytes of the input", "stdlib/chain.c")])

prop("C08", "Environment builtins deliver the host's value unchanged",
 "address, caller, origin, coinbase, callvalue, gasprice, balance, selfbalance, chainid, basefee, blobbasefee, prevrandao, blockhash, extcodehash, extcodesize, codesize, timestamp, number, gaslimit and gas each yield exactly the value the host reports, zero-extended to 256 bits, with addresses in the low 20 bytes. They pass the host exactly the account or block asked for and write nothing but their result. The runtime library's environment routines obey the same rule when called directly.",
 ["inputs"], "all host-reported values and all queried addresses and block numbers",
 ONLY2 + "Byte order, width and padding are right only if every byte position is; tests use one mock host with mostly zero values.",
 ["stdlib/chain.c", "src/yul2ir/instruction.rs"],
 [("environment wrappers", "stdlib/chain.c")],
 ["host environment calls", "result buffers and their surroundings"])

prop("C09", "Calls, creations and logs reach the host exactly as written",
 "call, delegatecall, staticcall, create, create2, selfdestruct and log0 to log4 hand the host exactly the gas, address, value, input bytes, salt, log data and topics written in the source. After a call that returns (a host that fails fatally halts the contract) the success flag is 1 exactly if the callee succeeded, the output area receives the first min(output length, returned size) bytes of return data and no other memory changes, and a created contract's address arrives as a clean 20-byte value. The runtime library's call, create and log routines obey the same rule when called directly.",
 ["inputs", "fault_sequences"], "all argument values, callee outcomes (success, revert, failure) and return data sizes",
 ONLY2 + "The outcome depends on the product of callee status, output length and return data size, and on every byte of each argument; tests sample a couple of successful calls.",
 ["stdlib/chain.c", "src/yul2ir/instruction.rs"],
 [("call, create and log wrappers", "stdlib/chain.c")],
 ["callContract, callDelegate, callStatic, createContract, emitLogEvent, selfDestruct, returnDataCopy"])

prop("C10", "Runtime library is free of memory errors and undefined behaviour",
 "No runtime-library operation reads or writes outside the objects it was given, the addressed contract memory and its own state, and none executes undefined behaviour in C, for any operand values, offsets, sizes and host responses a contract can produce. Every operation changes only the result, memory or storage it is documented to change and computes the documented value, also when the same buffer is given for several operands (results have buffers of their own), and new scratch buffers are zero and never overlap anything in use.",
 ["inputs", "histories"], "all operand values, alignments, shared operands, offsets, sizes, histories of operations and host responses",
 ONLY2 + "No test runs the runtime library under a sanitizer, and out-of-bounds or undefined operations usually do not change the sampled result.",
 ["stdlib/chain.c", "stdlib/chain_math.c", "stdlib/evm_memory.c", "stdlib/stdlib.c", "stdlib/utils.c"],
 [("bounds and widths in each helper", "stdlib/*.c")],
 ["sanitizer reports", "bytes around every buffer"])

prop("C11", "Built-in token transfer moves balance exactly as the standard transfer does",
 "The runtime's optimised token transfer behaves exactly as the standard transfer routine it replaces: it reverts with the standard error data for a zero sender, a zero receiver or an insufficient balance and then changes nothing, and otherwise lowers the sender's and raises the receiver's balance by the value and emits exactly one transfer event with the right topics and data. Over any history the sum of all balances is unchanged, also when sender and receiver are the same account. The library's transfer routine obeys the same rule when called directly.",
 ["inputs", "histories"], "all balances, values and address pairs, and all sequences of transfers",
 ONLY2 + "Conservation and revert-leaves-state-unchanged are statements about every history, including self-transfers and boundary balances.",
 ["stdlib/chain.c", "src/yul2ir/transform.rs"],
 [("optimised transfer", "stdlib/chain.c"), ("substitution of the user function", "src/yul2ir/transform.rs")],
 ["storageLoadLittleEndian, storageStoreLittleEndian, keccak256, emitLogEvent, revert"])

prop("C12", "Comment removal never alters the program's tokens",
 "Removing comments from a source yields text with exactly the same sequence of tokens, string and hex literals included, that a Yul lexer sees in the original, for every source: comment markers inside literals stay, escaped quotes do not end a literal, and line and block comments of any shape (nested markers, runs of stars, unterminated at end of input) disappear completely. It never joins two tokens separated only by a comment and never fails.",
 ["inputs"], "all source texts",
 "Two fixed examples are tested; the behaviour is a small state machine over quotes, escapes, slashes and stars whose failures need particular adjacent characters.",
 ["src/yul2ir/utils.rs"],
 [("comment stripper", "src/yul2ir/utils.rs")],
 ["text handed to the parser"])

prop("C13", "Every valid Yul object parses to a tree that says exactly what was written",
 "Every source text in the Yul grammar (objects with nested objects, code and data in any supported order, all statements and expressions, typed or untyped names, identifiers with dots and dollars) is accepted as far as the compiler's grammar supports it, and the resulting tree contains exactly the same objects, statements, names, literals, types and nesting in the same order. Whitespace and layout never change the tree.",
 ["programs"], "all valid Yul sources and all layouts of each",
 ONLY2 + "The grammar is recursive and its lexer resolves overlapping token patterns by longest match; which inputs are mis-tokenised is a question over all identifier, keyword and literal shapes.",
 ["src/yul.lalrpop", "src/yul2ir/ast.rs"],
 [("grammar and lexer", "src/yul.lalrpop"), ("tree types and printing", "src/yul2ir/ast.rs")],
 ["parse result"])

prop("C14", "Malformed source is rejected with an error and never accepted or crashes",
 "Any text that is not in the grammar of Yul objects (truncated, unbalanced, with stray or missing tokens, or arbitrary text) is refused by the front end with an error: it neither panics nor hangs nor accepts it as some other program. For such a text, and for a program that uses an undeclared variable or function, calls a builtin or function with the wrong number of arguments, or declares a variable twice in a scope, the command-line compiler exits with a non-zero status and leaves no output artefact behind.",
 ["inputs"], "all texts, in particular every single-token mutation of valid programs",
 ONLY2 + "Acceptance of a wrong program or a panic on a strange one is a claim about all texts; no test feeds invalid input to the parser.",
 ["src/yul.lalrpop", "src/yul2ir/utils.rs", "src/main.rs"],
 [("grammar", "src/yul.lalrpop"), ("error exit", "src/main.rs")],
 ["parse result", "exit status and files written"])

prop("C15", "String and hex literals denote exactly the bytes written",
 "Every escape the front end defines in a string literal (backslash, double quote, newline, tab, \\xHH, \\u{HHHH} and the whitespace gap, any number of times in any position) denotes its defined byte, UTF-8 sequence or nothing, and every other character denotes itself; any other escape is refused. A string used as a value is those bytes left-aligned in a 32-byte word (longer ones are refused), and a hex literal is exactly the bytes its digits spell.",
 ["inputs"], "all string and hex literals of any content and length",
 ONLY2 + "Escape handling must be right for every escape at every position and multiplicity; no test has two escapes in a literal.",
 ["src/yul.lalrpop", "src/yul2ir/utils.rs", "src/yul2ir/ast.rs", "src/yul2ir/context.rs"],
 [("literal productions", "src/yul.lalrpop"), ("unescaping", "src/yul2ir/utils.rs")],
 ["parse result", "value returned by a compiled contract"])

prop("C16", "Numeric literals of any size and base keep their exact value",
 "Every decimal or hexadecimal literal up to 2^256-1, with leading zeros or either hex case, has exactly its mathematical value wherever it appears: operand, argument, memory or storage value, switch case, return data, and whatever the surrounding types. Larger literals are refused. true and false are 1 and 0.",
 ["inputs", "programs"], "all literals below 2^256 in every syntactic position",
 ONLY2 + "The compiler picks different code for literals below 2^32, below 2^64 and above, so only values at and around each boundary in each position show a wrong pick.",
 ["src/yul.lalrpop", "src/yul2ir/ast.rs", "src/yul2ir/context.rs", "src/yul2ir/instruction.rs"],
 [("literal lowering", "src/yul2ir/context.rs, src/yul2ir/transform.rs"), ("constant store selection", "src/yul2ir/instruction.rs")],
 ["value returned by a compiled contract", "parse result"])

prop("C17", "Data segments and embedded contracts are retrievable byte for byte",
 "dataoffset, datasize and datacopy or codecopy of a named data segment or sub-object give exactly the bytes written in the source (a segment is its length as four big-endian bytes followed by the bytes of its literals, a sub-object likewise followed by that contract's wasm), under the name as it is scoped, for any number, size, order and nesting of segments. A created sub-contract is exactly the program its own object describes.",
 ["programs", "inputs"], "all object trees, segment names, contents and sizes",
 ONLY2 + "Sizes, offsets and name resolution depend on the whole object tree; a test with one segment cannot show a mix-up between two.",
 ["src/yul2ir/transform.rs", "src/yul2ir/context.rs", "src/yul2ir/utils.rs", "src/yul.lalrpop"],
 [("data embedding", "src/yul2ir/transform.rs"), ("length prefix", "src/yul2ir/utils.rs")],
 ["memory after datacopy", "code bytes handed to createContract"])

prop("C18", "Compiler outputs are valid, consistent, deterministic artefacts",
 "For every accepted program the compiler writes a valid wasm module that exports the deploy and call entry points and imports only the documented host interface with its documented signatures. The deployable file is exactly the four-byte big-endian length of that module followed by the module and the hex file is its lowercase hex, and compiling the same source with the same options again gives byte-identical outputs.",
 ["programs", "configurations", "histories"], "all accepted programs, all option sets, repeated compilations",
 ONLY2 + "Validity, determinism and file agreement are claims about every program and run; hash-ordered containers make nondeterminism appear only between processes.",
 ["src/main.rs", "src/yul2ir/wasm.rs", "src/yul2ir/context.rs", "src/yul2ir/utils.rs"],
 [("artefact writing", "src/main.rs"), ("linking", "src/yul2ir/wasm.rs")],
 ["files written by the command line tool"])

prop("C19", "Options and optimisation levels never change what a contract does",
 "For every program, every optimisation level, size minimisation, disabling or enabling all optimisers, the default return representation, and the storage interface option give contracts with the same observable behaviour: same outcome, data, storage, logs and calls on every input. In particular the recognised Solidity idioms (selector dispatch, address masks, free memory pointer, ABI decoding and cleanup helpers, panic and revert helpers) keep their meaning when replaced.",
 ["configurations", "programs", "inputs"], "all option combinations, all programs, all inputs",
 ONLY2 + "Pattern replacements fire on syntactic shape and function names; only differential runs across configurations on many shapes show a replacement that is wrong for some input.",
 ["src/yul2ir/context.rs", "src/yul2ir/instruction.rs", "src/yul2ir/transform.rs", "src/yul2ir/config.rs", "src/yul2ir/function_deduplicator.rs", "stdlib/chain.c"],
 [("option plumbing", "src/main.rs, src/yul2ir/config.rs"), ("idiom replacement", "src/yul2ir/instruction.rs, src/yul2ir/transform.rs")],
 ["host calls made by the contract under each option set"])

prop("C20", "Merging duplicate functions never merges functions that differ",
 "Removing duplicate functions redirects calls only between functions whose parameters, results and bodies are the same up to their names, and every call still reaches a function with the behaviour written in the source. Programs with many equal and nearly equal functions (differing in one literal, one builtin, the order of statements or in names that capture differently) behave as written.",
 ["programs"], "all sets of equal and nearly equal functions",
 ONLY2 + "A wrong merge needs two functions that differ only in what the comparison ignores.",
 ["src/yul2ir/function_deduplicator.rs", "src/yul2ir/transform.rs", "src/yul2ir/ast.rs"],
 [("duplicate detection", "src/yul2ir/function_deduplicator.rs")],
 ["outcome of calls in the compiled contract"])

prop("C21", "Library symbols resolve to the given address or fail the build",
 "A linker symbol in the source compiles to exactly the address given for that symbol on the command line, for any number of symbols and any address. A symbol with no address fails the build, or is the address of twenty 0xff bytes when unknown libraries are explicitly ignored, and never takes another symbol's address; an address that is no 20-byte hexadecimal number is refused.",
 ["configurations", "programs"], "all symbol names, addresses and sets of mappings",
 ONLY2 + "Mix-ups need several symbols with related names; one test uses one symbol.",
 ["src/main.rs", "src/yul2ir/instruction.rs", "src/yul2ir/config.rs"],
 [("symbol option and lookup", "src/main.rs, src/yul2ir/instruction.rs")],
 ["value returned by the compiled contract", "exit status"])

prop("C22", "Encoding scripts produce exactly the ABI calldata and hex of their input",
 "The call-encoding script prints, for every function signature and matching arguments of the supported types (integers of every width and sign, addresses, booleans, strings, arrays of these), 0x followed by the four-byte selector of the signature and the standard ABI encoding of the arguments, and rejects wrong argument counts or values that do not fit with a non-zero status and no calldata. The binary-to-hex script writes exactly two lowercase hex digits per input byte and nothing else.",
 ["inputs"], "all signatures over the supported types and all argument values; all binary files",
 "The script's own test encodes six fixed calls; widths, signs, dynamic layout and out-of-range values are not sampled, and it is not part of the stable tests.",
 ["examples/scripts/abi_encode.py", "examples/scripts/bin_to_hex.py"],
 [("argument conversion", "examples/scripts/abi_encode.py"), ("conversion", "examples/scripts/bin_to_hex.py")],
 ["standard output and exit status of the scripts"])

prop("C23", "Debug output shows the exact value and never affects the contract",
 "Debug printing of a number or word hands the host exactly the decimal digits with sign, or the 32 bytes, of the value printed, for every value including zero and the extremes. Neither debug output nor release mode's removal of it changes anything else the contract does. The runtime library's printing routines obey the same rule when called directly.",
 ["inputs", "configurations"], "all 32-bit integers, strings and words",
 ONLY2 + "Digit generation, buffer limits and sign handling fail only at extremes; nothing tests the conversion.",
 ["stdlib/utils.c", "stdlib/chain.c", "stdlib/debug_in_release.c"],
 [("number to text", "stdlib/utils.c"), ("debug wrappers", "stdlib/chain.c")],
 ["debug_bytes host call"])

prop("C24", "Contract code is prefixed with its exact length wherever it is embedded",
 "Embedding a compiled contract in another prefixes it with the exact length as four big-endian bytes and leaves its bytes unchanged, for every length, so that a reader of the prefix recovers exactly the embedded contract and whatever constructor arguments follow it. Deployment from such bytes splits code and arguments at exactly that point.",
 ["inputs"], "all code lengths and contents, all trailing argument lengths",
 ONLY2 + "Length bytes above the lowest differ from zero only for larger contracts.",
 ["src/yul2ir/utils.rs", "stdlib/chain.c", "src/main.rs"],
 [("length prefix", "src/yul2ir/utils.rs"), ("split on create", "stdlib/chain.c")],
 ["createContract arguments", "embedded bytes"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
