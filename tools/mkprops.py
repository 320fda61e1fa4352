import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=False):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)
    if state: a["state"]=[dict(name=n,meaning=n,where=files[0]) for n in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))
GEN=["pwart/opgen_num.c","pwart/opgen_utils.c","pwart/wagen.c","pwart/extfunc.c"]
CALL=["results and memory of functions called through pwart_call_wasm_function"]
p("C01","Integer instructions compute the WebAssembly result",
 "Every 32- and 64-bit integer instruction (arithmetic, bitwise, shifts, rotates, counting, comparison, tests, wrap, extend and sign-extension) compiled by pwart yields exactly the value the WebAssembly specification defines for its operands whenever it does not trap. The result does not depend on whether an operand is a constant, a parameter, a local, a global, a memory cell, an earlier result or a comparison outcome, nor on whether the result is stored, branched on, selected on or returned.",
 ["inputs","programs"],"all operand values (including boundaries such as the minimum integer, -1, shift counts past the width) and all placements of operands and results",
 "the tests apply each instruction to one or two fixed operand pairs in one placement; wrong sign extension, masking or a clobbered operand only shows for other values or placements",
 GEN,[("integer code generation","pwart/opgen_num.c opgen_GenNumOp and helpers"),("operand placement","pwart/opgen_utils.c load/unload of stack values")],CALL)
p("C02","Floating-point instructions follow IEEE 754 and WebAssembly",
 "Every f32 and f64 instruction (add, sub, mul, div, sqrt, min, max, ceil, floor, trunc, nearest, abs, neg, copysign and all comparisons) returns the correctly rounded result WebAssembly defines, including signed zeros, infinities, subnormals and NaN operands; where WebAssembly requires a NaN, some NaN is returned. abs, neg and copysign change only the sign bit.",
 ["inputs","programs"],"all operand bit patterns in all operand placements",
 "the tests use a few ordinary values; rounding ties, -0, NaN operands, infinities and subnormals are a tiny part of the input space that a sample does not reach",
 GEN,[("float code generation","pwart/opgen_num.c"),("float helper functions","pwart/extfunc.c")],CALL)
p("C03","Conversions between number types are exact",
 "Every conversion between i32, i64, f32 and f64 (convert, truncate and saturating truncate of values whose integer part the target type can hold, demote, promote, reinterpret) yields the value WebAssembly defines, with correct rounding and exact preservation of bit patterns under reinterpret.",
 ["inputs","programs"],"all operand bit patterns for which the conversion is defined",
 "rounding of large integers, unsigned values with the top bit set and the limits of the target range are isolated points among 2^64 inputs",
 GEN,[("conversion code generation","pwart/opgen_num.c"),("conversion helpers","pwart/extfunc.c")],CALL)
p("C04","Structured control flow runs the WebAssembly path with its values",
 "For every valid program whose blocks have at most one result, block, loop, if/else, br, br_if, br_table and return transfer control exactly as WebAssembly defines, at any nesting depth and with any code following an unconditional branch. The value carried to a label or returned is the one on top of the operand stack at the branch, operands below the label are preserved, and surplus operands are dropped.",
 ["programs","inputs"],"all nestings, branch depths, table indices (in and out of range), values carried and amounts of surplus operands",
 "the tests contain a handful of fixed shapes; interactions between branches, values kept in registers and block results are combinatorial",
 ["pwart/opgen_ctl.c","pwart/wagen.c","pwart/opgen_utils.c"],[("block entry and exit","pwart/opgen_ctl.c opgen_GenBlock/GenElse/GenEnd"),("branches","pwart/opgen_ctl.c opgen_GenBr/GenBrIf/GenBrTable"),("dispatch","pwart/wagen.c GenCode")],CALL)
p("C05","Locals and parameters are independent variables, zero at entry",
 "In every function each parameter and local behaves as its own variable of its declared type: a read returns the last value written on the executed path, the argument for parameters, or zero if nothing was written. A value already pushed from a variable is not changed by a later write to it, and neither calls, recursion nor the number and mix of variables affect this.",
 ["programs","inputs"],"all numbers and type mixes of parameters and locals, all orders of get/set/tee, branches and loops between them",
 "variables are spread over registers and stack slots by use; tests have few variables, so spilling, partially initialised paths and stale copies are not reached",
 ["pwart/wagen.c","pwart/opgen_utils.c","pwart/opgen_misc.c","pwart/opgen_ctl.c"],[("local placement and zero-initialisation","pwart/wagen.c prepare pass, pwart/opgen_ctl.c EmitFuncEnter"),("get/set/tee","pwart/opgen_misc.c")],CALL)
p("C06","Pending operands survive everything evaluated after them",
 "A value pushed on the operand stack keeps its value until it is consumed, no matter how many other operands are pending, how many machine registers are in use, or which instructions (calls, memory growth, comparisons, selects, blocks, divisions) run in between. This holds up to the documented compiler limit on pending operands.",
 ["programs","inputs"],"all evaluation orders and operand depths up to the limit, all kinds of pending operands (constants, variable copies, addresses, comparison flags, float and integer registers)",
 "register pressure and flag reuse only fail for particular combinations of pending operands and later instructions; fixed tests keep few operands pending",
 ["pwart/opgen_utils.c","pwart/opgen_num.c","pwart/opgen_mem.c","pwart/opgen_ctl.c"],[("register allocation and spilling","pwart/opgen_utils.c pwart_GetFreeReg/SaveStack"),("stack value forms","pwart/opgen_utils.c StackValue handling")],CALL)
p("C07","Calls pass arguments and results faithfully",
 "Direct, indirect, tail and host calls, in any mix and recursion depth, deliver every argument to the callee in order and every result to the caller in order for all value types and any number of them, leave the caller's variables and pending operands intact, and a tail call returns the callee's results to the original caller. Host functions see the arguments at the frame and the caller sees what the host put there.",
 ["programs","inputs"],"all signatures (0..many parameters and results of every type), call kinds, recursion depths and caller states",
 "tests call functions with one or two arguments; slot layout, alignment and save/restore errors depend on signature and on what the caller holds",
 ["pwart/opgen_ctl.c","pwart/wagen.c","pwart/opgen_utils.c","pwart/pwart.c"],[("call emission","pwart/opgen_ctl.c opgen_GenCallFunc/CallIndirect/ReturnCall"),("frame layout","pwart/opgen_utils.c stackvalue offsets; pwart/wagen.c EmitFuncEnter")],["arguments seen by host functions; call results"])
p("C08","Loads and stores touch exactly the addressed bytes",
 "Each load returns the little-endian value of exactly the addressed bytes with the instruction's width and sign or zero extension, and each store changes exactly those bytes and no others, for any base and offset whose sum lies inside the memory, in any of a module's memories, for 32- and 64-bit indexed memories, and for memories shared with other modules or the host.",
 ["programs","inputs"],"all widths, alignments, constant and computed addresses, large offsets, memory indices and memory kinds",
 "tests read and write a few small addresses of memory 0; offset folding, index extension and memory selection errors need other addresses and layouts",
 ["pwart/opgen_mem.c","pwart/wagen.c"],[("address computation","pwart/opgen_mem.c opgen_GenBaseAddressReg"),("load/store emission","pwart/opgen_mem.c"),("memory base caching","pwart/wagen.c cached_midx")],["memory bytes through pwart_get_export_memory; call results"],state=["memory bytes"])
p("C09","Memory growth keeps contents and reports sizes truthfully",
 "memory.size is always the current page count; memory.grow returns the previous page count and adds exactly that many zeroed pages when the total stays within the declared maximum, and otherwise returns -1 and changes nothing. All previous bytes keep their value and all current pages are accessible afterwards, from generated code, importing modules and the host, for memories with and without a maximum.",
 ["histories","inputs"],"all sequences of grow/size/load/store with all growth amounts, limits, memory kinds and sharing",
 "tests grow once by a small amount; overflow of the page count, growth of bounded memories and stale base addresses need specific histories",
 ["pwart/extfunc.c","pwart/opgen_mem.c","pwart/modparser.c"],[("grow","pwart/extfunc.c wasm memory grow helper"),("allocation","pwart/modparser.c section 5"),("base reload","pwart/opgen_mem.c")],["memory.size/grow results, struct pwart_wasm_memory, memory bytes"],state=["pages","maximum","bytes"])
p("C10","Bulk memory and table operations move exactly the given range",
 "memory.copy, memory.fill, table.copy and table.fill with in-range operands change exactly the destination range, giving it the values the source range had before the operation even when the ranges overlap in either direction, or the repeated fill value; a zero count changes nothing. This holds between different memories and tables and for both index widths.",
 ["inputs","programs"],"all offsets, counts, overlaps and memory/table pairs in range",
 "overlap direction, zero and odd counts and second memories are separate cases that fixed tests rarely combine",
 ["pwart/extfunc.c","pwart/opgen_mem.c","pwart/opgen_misc.c"],[("bulk helpers","pwart/extfunc.c"),("emission","pwart/opgen_mem.c")],["memory and table contents"])
p("C11","Tables and references keep identity",
 "table.get returns the reference last set at that index by an element segment, table.set, fill, copy or the host, table.size is the entry count, ref.is_null is true exactly for null, ref.func denotes the same function as its index, and an indirect call through an entry runs exactly the function that the entry holds, whether the table is own, imported or exported, and whatever module the function belongs to.",
 ["histories","programs"],"all sequences of table updates and indirect calls over own and shared tables and functions, all element segment forms",
 "tests use one table with one active segment; segments in other forms, shared tables and updates by other modules need multi-step, multi-module histories",
 ["pwart/opgen_misc.c","pwart/opgen_mem.c","pwart/modparser.c","pwart/opgen_ctl.c"],[("element segments","pwart/modparser.c section 9"),("table ops","pwart/opgen_mem.c"),("indirect call","pwart/opgen_ctl.c")],["call results, struct pwart_wasm_table entries"],state=["table entries"])
p("C12","Globals are single shared cells with the declared initial value",
 "Every global starts with the value of its constant initialiser (constants of all types, earlier globals, function and null references), global.set is seen by every later global.get in any function, in any module that imports it and by the host through the exported address, and distinct globals never affect each other.",
 ["histories","programs"],"all numbers and types of globals, initialiser forms, and interleavings of writes by several modules and the host",
 "tests have few globals with i32 initialisers; layout, width, sign extension and sharing errors need many globals of mixed type and several modules",
 ["pwart/modparser.c","pwart/opgen_misc.c","pwart/opgen_utils.c"],[("global section and const expressions","pwart/modparser.c section 6, waexpr_run_const"),("get/set","pwart/opgen_misc.c")],["global cells through pwart_get_export_global; call results"],state=["global cells"])
p("C13","Loading a module reproduces exactly what its bytes describe",
 "For every well-formed binary in the supported feature set, in whatever valid integer encoding, section selection (including custom sections) and sizes within the documented limits, loading succeeds and the instance has exactly the functions, memories, tables, globals, data, elements, start function and exports described; a name looks up the export with exactly that name and kind and nothing else; imports are bound to what the resolver, then the builtins, supply for that module and field name and kind.",
 ["inputs"],"all well-formed binaries: counts past one encoding byte, padded and maximal-length integers, long names, every section present or absent",
 "the tests load nine files from one assembler that always uses minimal encodings and the same section shapes",
 ["pwart/modparser.c","pwart/util.c","pwart/pwart.c"],[("section parsing","pwart/modparser.c load_module"),("integer decoding","pwart/util.c read_LEB"),("export lookup","pwart/pwart.c get_export")],["public lookup API after load; resolver requests; memory/table/global contents"])
p("C14","A namespace maps each name to the last module defined under it",
 "After any history of defining, redefining, removing and looking up host and wasm modules, lookup of a name gives the module most recently defined under that name or nothing if it was removed or never defined; imports resolve through the same mapping at definition time; attach and detach callbacks run exactly once per definition and removal, and deletion detaches every remaining module once.",
 ["histories"],"all histories of namespace operations over several names and module kinds",
 "the tests define each name once; redefinition, removal and deletion orders are histories they never run",
 ["pwart/namespace.c"],[("name map","pwart/namespace.c pwart_namespace_define_module/remove_module/find_module/delete"),("resolver","pwart/namespace.c symbol_resolve")],["pwart_namespace_find_module results, callbacks, resolved imports"],state=["name to module map"])
p("C15","The runtime-stack helpers and host wrapping round-trip every value",
 "Values put with the runtime-stack helpers are read back unchanged in the same order by the matching get helpers and by generated code, for every sequence of types and both alignment settings, with each slot's position depending only on the types before it; wrapped host functions are called with exactly the frame address passed and can be freed in any order without affecting others; user data and resolver set on a module state are returned unchanged.",
 ["histories","inputs","configurations"],"all type sequences and values under every stack configuration, all orders of wrapping, calling and freeing",
 "alignment padding depends on the whole sequence of types and on the configuration; tests pass one or two values under the default",
 ["pwart/pwart.c","pwart/util.c","pwart/hostdef.c"],[("stack helpers","pwart/pwart.c pwart_rstack_put/get"),("host wrapping","pwart/pwart.c pwart_wrap_host_function_c")],["values read back; frame offsets; host-visible arguments"])
p("C16","Builtin functions do what their documentation states",
 "Each builtin symbol importable by a module (version, native memory allocation and access, reference and integer casts, byte copies, string length, module load/unload/import from inside a module, own context, host definitions and the file functions) behaves as documented for all arguments: results in the documented order and types, allocated memory is usable and distinct, references convert without loss, and file data round-trips with truthful counts.",
 ["histories","inputs"],"all sequences of builtin calls with valid arguments, including allocation and file histories",
 "the tests touch a few builtins once; result layout, widths and interleavings of several resources are not exercised",
 ["pwart/extfunc.c","pwart/hostdef.c","pwart/opgen_ctl.c","pwart/opgen_mem.c"],[("builtin functions","pwart/extfunc.c insn_*"),("stub functions","pwart/opgen_ctl.c / opgen_misc.c stub calls")],["results of importing modules; file contents; native memory bytes"])
p("C17","Results do not depend on the compile configuration",
 "For every valid module, the observable results, memory, globals, tables and host-visible arguments are the same under every combination of the global compile options (stack alignment, index extension, zero initialisation being on), with arguments laid out by the public helpers under the same option; reading the configuration returns what was set.",
 ["configurations","programs"],"all programs under all option combinations",
 "the tests run under the default configuration only, so code paths of the other settings are compiled by nothing",
 ["pwart/opgen_utils.c","pwart/opgen_mem.c","pwart/pwart.c","pwart/wagen.c"],[("stack alignment","pwart/opgen_utils.c frame offsets"),("index extension","pwart/opgen_mem.c"),("configuration","pwart/pwart.c pwart_set_global_compile_config")],CALL)
p("C18","Loaded modules are isolated and outlive their compiler",
 "A loaded module keeps behaving the same after its compiler is freed, after its input bytes are overwritten, and after any other modules are loaded, run, fail to load or are freed, and two instances of the same binary have separate memories, tables and globals unless they import the same ones.",
 ["histories"],"all interleavings of load, call, compiler free, state free and failed load over several modules",
 "lifetime errors show only when memory released by one operation is reused by another before a later call; tests load one module per process phase",
 ["pwart/pwart.c","pwart/modparser.c","pwart/namespace.c","pwart/util.c"],[("state and compiler lifetime","pwart/pwart.c pwart_free_module_state, free_module"),("pools and arrays","pwart/util.c")],["call results and lookups in every live module after each step"])
p("C19","The code generator backend computes integer and move operations exactly",
 "For the bundled low-level compiler, every integer move, one-, two- and three-operand operation and condition flag, at 32-bit and machine width, between any registers, memory addressing modes, stack locals and immediates, produces the documented result and flags, changes only its destination, and leaves all other registers and memory unchanged.",
 ["programs","inputs"],"all operations, operand kinds, aliasing of source and destination registers and immediate sizes",
 "aliasing and immediate-width cases are combinatorial; its own tests fix one combination each",
 ["sljit/sljit_src/sljitLir.c","sljit/sljit_src/sljitNativeX86_common.c","sljit/sljit_src/sljitNativeX86_64.c"],[("operation emission","sljitNativeX86_common.c sljit_emit_op1/op2/op2r/shift_into/op_flags/select")],["register and memory image after running generated code"])
p("C20","The backend's floating-point operations and moves are exact",
 "For the bundled low-level compiler, every float move, arithmetic, sign, conversion, comparison and select, in both precisions and with register, memory or constant operands in any aliasing, gives the IEEE result and the documented ordered/unordered flags, and changes nothing else.",
 ["programs","inputs"],"all operations, bit patterns, operand kinds and aliasing",
 "NaN-aware comparisons, aliasing and memory operands combine in ways its own tests sample once",
 ["sljit/sljit_src/sljitLir.c","sljit/sljit_src/sljitNativeX86_common.c","sljit/sljit_src/sljitNativeX86_64.c"],[("float emission","sljitNativeX86_common.c sljit_emit_fop1/fop2/fcmp/fselect")],["register and memory image after running generated code"])
p("C21","Backend control transfers reach their targets, before and after patching",
 "In code produced by the low-level compiler every conditional and unconditional jump, call, indirect jump, return and address load goes to its label or target exactly when its condition holds, for any distance and code layout, arguments and saved registers are preserved across calls as declared, and rewriting a patchable constant or jump afterwards changes exactly that constant or destination.",
 ["programs","histories"],"all layouts and distances (short and long forms), conditions, argument signatures and patch histories",
 "jump-size selection depends on the whole layout, so a wrong threshold shows only at particular distances",
 ["sljit/sljit_src/sljitLir.c","sljit/sljit_src/sljitNativeX86_common.c"],[("jump reduction and linking","sljitNativeX86_common.c sljit_generate_code"),("patching","sljit_set_jump_addr/sljit_set_const")],["path taken and values returned by generated code"])
p("C22","Serialising and restoring a code buffer preserves its meaning",
 "Serialising a compiler at any point of building a function, restoring it and continuing gives code that behaves exactly like the uninterrupted build, including labels, jumps, constants and address loads created before and after the interruption; truncated, foreign or mismatching buffers are refused.",
 ["crash_points","programs"],"all programs and all interruption points",
 "what must be saved depends on where in the build the interruption happens; its tests interrupt at a few points",
 ["sljit/sljit_src/sljitSerialize.c"],[("serialise/deserialise","sljitSerialize.c")],["results of restored code; returned error for damaged buffers"])
p("C23","Executable memory blocks never overlap and are reused safely",
 "Under any sequence of allocations and frees of executable memory, every live block has at least the requested size, is suitably aligned, overlaps no other live block and keeps its contents until freed, freed space becomes usable again, neighbouring free space is merged, and releasing unused memory never affects live blocks.",
 ["histories"],"all allocation/free/trim histories",
 "boundary-tag errors depend on the order of frees around a block; tests allocate and free in stack order",
 ["sljit/sljit_src/allocator_src/sljitExecAllocatorCore.c","sljit/sljit_src/allocator_src/sljitExecAllocatorPosix.c"],[("block splitting and merging","sljitExecAllocatorCore.c sljit_malloc_exec/sljit_free_exec/sljit_free_unused_memory_exec")],["addresses and contents of live blocks"],state=["free list and boundary tags"])
p("C24","The growable stack stays within its limits and keeps live data",
 "A growable stack reports limits consistent with the requested sizes, resizing succeeds exactly for positions inside the reserved region, a refused resize changes nothing, and data at or above the current start is preserved by every resize.",
 ["histories","inputs"],"all start/maximum sizes and resize histories, aligned or not",
 "page rounding in shrink paths discards the wrong page only for particular offsets",
 ["sljit/sljit_src/sljitUtils.c"],[("stack resize","sljitUtils.c sljit_stack_resize")],["stack fields and contents after each operation"],state=["min_start","start","end","top"])
p("C25","The regex compiler accepts exactly the described language",
 "For every pattern of the supported syntax and every input, fed in one or many pieces, the matcher reports a match exactly when the pattern's language admits one under the anchoring, newline and greediness options, with the leftmost beginning and the end and identifier its options define; invalid patterns are refused with an error.",
 ["inputs","histories"],"all patterns, inputs, option sets and ways of splitting the input",
 "its tests are a fixed list of pattern/input pairs fed in one piece",
 ["sljit/regex_src/regexJIT.c"],[("parser","regexJIT.c parse_*"),("match loop generation","regexJIT.c regex_compile")],["regex_get_result after feeding input"])
p("C26","Host binding functions map library results onto wasm results",
 "The libuv and libffi bindings offered to modules read their arguments and place their results in documented order: threads run the given function with its own stack, locks, conditions and dynamic symbols behave as the underlying library's do with the error code as the result, and foreign calls and callbacks pass every argument and result unchanged any number of times.",
 ["histories","schedules"],"all sequences of binding calls with valid arguments, under any thread schedule",
 "no test links these bindings at all",
 ["pwart_syslib/libuv.c","pwart_syslib/libffi.c"],[("libuv bindings","pwart_syslib/libuv.c"),("libffi bindings","pwart_syslib/libffi.c")],["frame contents after each binding call"])
p("C27","Rejected modules fail cleanly",
 "A module the loader does not support, whose imports cannot be resolved or are smaller than it declares, or for whose code there is no memory is refused with an error message rather than terminating the process or running, leaves the namespace and all loaded modules as they were, and a corrected module can be loaded afterwards.",
 ["inputs","histories"],"all histories mixing refused and accepted modules",
 "tests load only accepted modules",
 ["pwart/modparser.c","pwart/namespace.c","pwart/pwart.c"],[("error propagation","pwart/modparser.c load_module"),("failure handling","pwart/namespace.c pwart_namespace_define_wasm_module")],["returned error and later behaviour of the same namespace"])
p("C28","Exhausted memory is reported by the code generator, never silent or fatal",
 "When memory is refused at any point while code is generated through the public sljit interface, the call reports it, every later call on that compiler answers with the same error, objects and code are handed out exactly by calls that succeed, nothing crashes, and freeing the compiler gives back every block; with a caller's buffer the code stays inside it or is refused.",
 ["fault_sequences","inputs","histories"],"all instruction sequences, all points at which heap or executable memory is refused, all buffer sizes",
 "no test refuses memory; an unchecked allocation differs only when a fragment ends exactly at that instruction",
 ["sljit/sljit_src/sljitLir.c","sljit/sljit_src/sljitNativeX86_common.c","sljit/sljit_src/sljitNativeX86_64.c","sljit/sljit_src/sljitSerialize.c"],[("error state","sljitLir.c ensure_buf/ensure_abuf/CHECK_ERROR"),("emission","sljitNativeX86_common.c FAIL_IF(!inst)"),("code memory","sljitLir.c allocate_executable_memory")],["return values, sljit_get_compiler_error and outstanding blocks after every call"],state=["error","outstanding blocks"])
p("C29","Vector operations of the code generator act on exactly the lanes they name",
 "For every vector operation, register size, element type, lane, addressing form and instruction encoding, code emitted through the sljit SIMD interface computes the documented result in every lane, writes exactly the bytes of its destination, leaves other registers, memory and the status flags alone, and forms the machine lacks are refused as unsupported without emitting anything.",
 ["inputs"],"all operand values, alignments, register and memory operand combinations, with and without AVX2",
 "tests use a few fixed registers, lanes and aligned buffers per operation",
 ["sljit/sljit_src/sljitNativeX86_common.c","sljit/sljit_src/sljitLir.c"],[("vector operations","sljitNativeX86_common.c sljit_emit_simd_*"),("argument checks","sljitLir.c check_sljit_emit_simd_*")],["memory and registers after the program, result code of every emit call"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
