WT = 'The scripts under tests/ exercise a few hand-picked operands; '
prop('C01', 'Arithmetic on numbers is exact two\'s-complement or IEEE single',
     "For every pair of operand values, +, -, *, / and % on two integers give the 32-bit wrapped result (division truncating toward zero, the most negative integer divided by -1 wrapping, its remainder 0), and +, -, *, / on numbers of which at least one is a float give the single-precision result. Dividing or taking a remainder of integers by zero ends the script with the divide-by-zero error, negating an integer wraps, and any other operand types end it with the bad-type error unless a host handler accepts the operation. No operand crashes the host, and nothing but the two operands and the one result on the value stack changes.",
     ['inputs'], 'all operand values of every type, all stack contents below them, with and without host handlers',
     WT + 'they never reach the most negative integer, float/int mixes or wrap-around.', [TH, 'lib_vm/value.h', 'lib_vm/value.cpp', 'lib_vm/vm_gc.cpp'],
     [('arithmetic opcodes', TH), ('numeric conversion', 'lib_vm/value.h')],
     'Proved for all operands per opcode (refinement of step_imp_ against a specification transformer over the whole thread state); assumes heap not exhausted, well-formed bytecode, handlers that leave the VM alone.')
prop('C02', 'Comparison, equality, logic and branching follow one truth rule',
     "For every pair of values, the relational operators on numbers give 1 or 0 according to integer order (two integers) or float order (any float involved), and equality compares integers, floats, strings by content, functions by identity and none only to none. Logical and/or/not and conditional jumps use one truth rule: none is false, numbers are false exactly when zero, strings when empty, arrays and callables are always true. Any other combination ends the script with the bad-type error unless the host equality handler accepts it.",
     ['inputs'], 'all operand values of every type, all stack contents',
     WT + 'NaN, negative zero, mixed int/float and every non-number truth value need all-inputs reasoning.', [TH, 'lib_vm/value.h'],
     [('comparison, logic and jump opcodes', TH), ('truth of a value', 'lib_vm/value.h')],
     'Proved for all operands per opcode; string equality is content equality over all lengths.')
prop('C03', 'String values keep every character',
     "Concatenating a string with a string, integer, float, none or function yields exactly the full text of the left operand followed by the full text of the right one, whatever their lengths; with any other type it ends the script with the bad-type error unless a host handler accepts it. A string literal evaluates to exactly its characters, two strings are equal exactly when they have the same characters, and indexing yields the character's unsigned code or the bounds error. Every string created is terminated and lies inside the memory reserved for it.",
     ['inputs'], 'all string contents and lengths, all operand types, all indices',
     WT + 'long operands were silently cut at 15 characters without any test noticing.', [TH, 'lib_vm/vm_gc.cpp', 'lib_vm/value.cpp'],
     [('concatenation, equality, literal and index opcodes', TH), ('string allocation', 'lib_vm/vm_gc.cpp')],
     'Proved for all lengths; the decimal text of numbers is the C library\'s (uninterpreted, 1..11 / 1..47 characters).')
prop('C04', 'Array access is bounds checked and touches only the named element',
     "Reading element i of an array yields the stored element when 0 <= i < length and otherwise ends the script with an error before any memory outside the array is touched; the same holds for writing. A write changes exactly that one element, storing a private copy of numbers, strings and callables and the same array for arrays, and an array literal holds its items in source order. A new array has the requested length with every element none, and its length member reports that length.",
     ['inputs'], 'all arrays, all index values and types, all element values',
     WT + 'out-of-range, negative and non-integer indices and aliasing are sampled at most once.', [TH, 'lib_vm/vm_gc.cpp', 'lib_vm/value.h'],
     [('index, element assignment and literal opcodes', TH), ('copy and array allocation', 'lib_vm/vm_gc.cpp')],
     'Proved for all arrays and indices; assumes heap not exhausted.')
prop('C05', 'Variables and temporaries live in their own slot',
     "Reading a local, argument or global variable yields the value last written to that slot and writing changes only that slot, for every slot number and call depth; a slot outside the stack or the global table ends the script with an error instead of touching memory. Reserving locals or globals creates exactly the requested number of slots, all none; constants push exactly their value; dropping values removes exactly the requested number.",
     ['inputs', 'histories'], 'all slot numbers, frame positions, stack contents and global tables',
     WT + 'they use a handful of slots and never an out-of-range one.', [TH, 'lib_vm/value.h', 'lib_vm/value.cpp'],
     [('variable and constant opcodes', TH), ('value stack', 'lib_vm/value.h')],
     'Proved for all slots, depths and contents.')
prop('C06', 'Calls and returns balance the stack and resume the caller',
     "A call enters the callee with a frame that remembers the instruction after the call, and its return removes the callee's arguments and locals, leaves exactly the return value and continues at that instruction, whatever the depth or contents of the stack. Calling through a value enters exactly the function it denotes when the argument count matches, runs the host function it denotes, and otherwise (including a host function that was never resolved) ends the script with an error without entering anything. A return finishes the thread exactly when its frame was the entry frame or none remain.",
     ['inputs', 'histories'], 'all call depths, frames, argument counts, return values and callee values',
     WT + 'deep stacks, indirect calls of non-functions and wrong argument counts are not exercised.', [TH, 'lib_common/program.cpp'],
     [('call, return and jump opcodes', TH), ('frame control', TH)],
     'Proved for all frames and stacks; host functions are assumed to return.')
prop('C07', 'Threads start, run, stop and report exactly once, within their budget',
     "Starting a function with a matching argument count schedules one thread holding exactly those arguments (arrays shared, other values copied); a mismatch starts nothing and is reported. A resume executes at most the budgeted instructions, stops early only because the thread finished or was halted, counts every instruction as one cycle, and returns true exactly when no error is pending; a finished thread never executes again. The error and finish handlers are each told exactly once, when the thread ends. Stepping runs one instruction, or up to the first instruction on another source line. A scheduling round lets each thread in order count down its wait, be removed if finished, or run one slice, stopping at the first thread with an error; calling a function to completion returns its value or its error, and initialising runs every global initialiser to completion and reports failure if one fails.",
     ['inputs', 'schedules', 'histories'], 'all budgets, instruction outcomes, thread states, thread list lengths, argument lists and handler settings',
     WT + 'no test varies the budget, the number of threads, waiting, handlers or stepping.', [TH, 'lib_vm/vm.cpp', 'lib_vm/thread.h', 'lib_vm/vm_gc.cpp'],
     [('run loop and stepping', TH), ('scheduler and entry points', 'lib_vm/vm.cpp')],
     'Proved for all budgets, histories and thread counts by loop invariants over a contract of step_imp_ that is itself discharged for each of the 40 opcodes; host callbacks are assumed to leave the VM alone.')
prop('C08', 'Garbage collection never loses, merges, alters or moves away a reachable value',
     "Whatever the shape of the value graph (shared, nested or cyclic arrays, values created before or after earlier collections), after a collection every global and every stack slot of every scheduled thread holds the same none, number, text or callable as before, or an array of the same length whose elements correspond in the same way; arrays that were one array stay one array and different arrays stay different. Survivors lie in the space that is kept, the other space is emptied and is where new values go, a new value never overlaps an existing one, and a collection is due exactly when more than three quarters (in whole percent) of the allocation space are used. Resetting the vm empties the heap together with everything that refers to it.",
     ['inputs', 'histories'], 'all heap graphs, root sets, thread counts, array lengths and string contents; any sequence of allocations and collections',
     WT + 'only one small script ever triggers a collection, and none holds a cyclic or shared array across one.', ['lib_vm/vm_gc.cpp', 'lib_vm/vm_gc.h', 'lib_vm/vm.cpp', 'lib_vm/value.h'],
     [('trace, collect, constructors', 'lib_vm/vm_gc.cpp'), ('arena allocator and forwarding map', 'lib_vm/vm_gc.h'), ('roots', 'lib_vm/vm.cpp')],
     'Proved for all heaps: trace carries a recursive contract with frame, forwarding-map and closure invariants at arbitrary arrays and slots, including termination; assumes the live data fits the spaces and that handlers and host code keep no values.')

prop('C09', 'Every builtin function computes what its name says or reports a bad argument',
     "For every argument list: abs, min, max, bitand, sin, cos, tan, round, ceil, floor, sqrt, len, chr, wait, new_array and new_thread consume exactly their arguments, leave everything below them alone and leave exactly one result, which is the named function of the arguments (min and max as floats; len the number of characters or elements; chr the one-character string of the low 8 bits, empty when they are 0; new_array an array of that many nones); an argument of the wrong type, a non-positive array size, or a value that is not a script function taking that many arguments ends the script with the bad-argument error, and a wrong number of arguments with the argument-count error. wait suspends the thread for exactly the positive count given and not at all otherwise; new_thread starts exactly one thread running that function with the remaining arguments in order. Each name resolves to its own function and no other system call is touched.",
     ['inputs'], 'all argument values of every type, all argument counts, all stack contents',
     WT + 'argument errors, counts, negative sizes and most functions are never called.', ['lib_builtins/builtin.cpp', 'lib_common/program.cpp', 'lib_vm/value.h'],
     [('builtin functions and their table', 'lib_builtins/builtin.cpp'), ('function lookup by address', 'lib_common/program.cpp')],
     'Proved for all arguments per builtin, and for function_find; sinf/cosf/tanf are uninterpreted, array sizes assumed below 2^20; the name table (builtins_register/builtins_resolve) is only checked natively on random tables (bounded).')

CC = 'lib_compiler/'
prop('C11', 'Generated code carries out the program: order, control flow, slots and call targets',
     "For every checked program, the code generated for each construct performs exactly the evaluations its source asks for, in order: operands left before right, call arguments first to last before the call, the assigned value before the index, one operator instruction of the operator written; an if runs its then part exactly when the condition is true and otherwise its else part (possibly empty); a while tests before every iteration; a for assigns its start value once, tests variable < end before every iteration and adds one after it; return leaves its value (none when it has none) and gives back exactly the frame of its function; a call used as a statement leaves nothing on the stack. Every name accesses the slot its declaration was given, literals produce their exact number or text, a call or function value refers to the start of the function it names with the number of arguments written, and a function without a final return returns 0. Nested constructs of any depth never disturb code generated around them.",
     ['inputs'], 'all syntax trees of every node kind (any children, list lengths, slots, nesting), all code already generated before them',
     WT + 'no test looks at the code generated, and most combinations of nesting, empty parts and scopes never run.', [CC + 'codegen.cpp', CC + 'program_builder.h', CC + 'program_builder.cpp', CC + 'ast.cpp', CC + 'ast.h'],
     [('one visit function per node kind', CC + 'codegen.cpp'), ('code stream and fixups', CC + 'program_builder.h'), ('traversal', CC + 'ast.cpp')],
     'Proved per node kind for all children and surrounding code: the emitted bytes are decoded and shown bisimilar to the control-flow specification of the node, children being opaque segments under the same contract; plus random whole programs against an independent interpreter (bounded, labelled).')
prop('C16', 'Every instruction knows its source line, and stepping, breakpoints and errors report it',
     "For every program, each instruction generated from a construct is recorded under the file and line of the token it comes from (operators, literals, names, calls, conditions, returns, the end of the function for the implicit return), recording one instruction never alters the line of another, and looking up an instruction yields exactly the recorded line or no line. A runtime error is reported on the line of the operation that failed, single-stepping a line stops at the first instruction of another line, and execution halts at an instruction whose line has a breakpoint.",
     ['inputs', 'histories'], 'all syntax trees of every node kind, all tokens and line tables, all program counters',
     WT + 'no test inspects line numbers, breakpoints or stepping.', [CC + 'codegen.cpp', CC + 'program_builder.cpp', 'lib_common/program.h', TH],
     [('line table', 'lib_common/program.h'), ('set_line per instruction', CC + 'program_builder.cpp'), ('stepping and breakpoints', TH)],
     'Proved per node kind and for the table lookup; that stepping and errors use the table is proved under C07 and C06 (get_line assumed there, proved here); whole programs natively (bounded).')
prop('C10', 'Optimisation and constant evaluation never change what a program does',
     "For every program, constant folding, removal of dead branches and of statements after a return, evaluation of global initialisers and substitution of named constants leave the observable behaviour (results, output, errors, order of effects) as it is without them: an expression becomes a literal only when all its operands are constants and the literal is the value the virtual machine would compute (wrapping, division truncating), a branch or loop body is dropped only when its condition is a constant that never selects it, a statement only when it follows a return in the same block, and a use of a constant becomes a copy of exactly its literal, replacing that use and nothing else. A constant division by zero is reported at compile time; nothing else about constants is.",
     ['inputs'], 'all expressions and operand values, all statements and blocks, all constants and global initialisers',
     WT + 'no test compares optimised with unoptimised code, and wrap-around, shared constants and dead code next to live code are not exercised.', [CC + 'optimize.cpp', CC + 'sema.cpp', CC + 'ast.h', CC + 'ast.cpp'],
     [('constant folding, dead code', CC + 'optimize.cpp'), ('constant evaluation and substitution', CC + 'sema.cpp'), ('replace_child', CC + 'ast.h')],
     'Proved per visit function for all nodes; composition into whole programs natively against an independent interpreter (bounded).')
prop('C12', 'Programs mean what the grammar says: precedence, associativity and structure',
     "For every program text, parsing gives the tree the grammar defines: unary minus binds tightest, then * / %, then + -, then the comparisons, then not (so not a < b is not (a < b)), and last the level that and and or share; binary operators of one level associate to the left; parentheses, calls, indexing and member access override; statements, nested blocks, else branches, loops, argument lists and declarations attach to the construct they are written in, in source order. A text that is not in the grammar is rejected with an error on the line where it goes wrong, never accepted with another meaning, and no text whose nesting fits the host stack makes the compiler crash or hang.",
     ['inputs'], 'all token sequences',
     WT + 'mixed precedence levels, deep nesting and malformed input are sampled by a few scripts.', [CC + 'parser.cpp', CC + 'parser.h', CC + 'token.cpp', CC + 'token.h'],
     [('operator precedence parser', CC + 'parser.cpp'), ('token stream', CC + 'token.h')],
     'Every parse function is verified against the grammar for token sequences of any length; the operator stacks against precedence climbing. Whole programs natively against an independent grammar (bounded).')
prop('C13', 'The lexer splits every text into exactly the tokens written, on their lines',
     "For every source text, the token stream contains exactly the keywords, names, integers, floats, strings and operators written, in order, each with its exact text or value and the line it starts on; keywords are recognised only as whole words, the longest operator is taken, spacing and comments separate but never alter tokens, and each line end is kept as a line end. A character that starts no token and a string left open at the end are reported on their line. No byte outside the text is read, for any text.",
     ['inputs'], 'all source texts of any length',
     WT + 'keyword prefixes, long literals, comments at the end of the text and unusual bytes never appear.', [CC + 'lexer.cpp', CC + 'lexer.h', CC + 'token.h'],
     [('lexer', CC + 'lexer.cpp'), ('token construction', CC + 'token.h')],
     'Every turn of lexer_t::lex is verified against the token grammar for a text of any length, as are keyword matching, the value of numbers and the token list. Whole texts natively against an independent lexer (bounded).')
prop('C14', 'Names resolve to the innermost visible declaration, and every variable has its own slot',
     "For every program, each use of a name refers to the declaration of that name in the innermost enclosing scope in which it is visible at that point (block, loop, function arguments, globals, functions and host functions); using, assigning or calling an unknown name, declaring a name that is visible already, assigning to a function or constant, and calling a function with the wrong number of arguments are compile errors on the line of the mistake. Arguments, locals and globals that are alive together never share a slot: argument i of n is at i - n, locals and globals at distinct offsets below the reserved count.",
     ['inputs'], 'all programs: any nesting of scopes, any number of declarations, functions and arguments',
     WT + 'shadowing, sibling scopes and most compile errors are not exercised.', [CC + 'sema.cpp', CC + 'pre_codegen.cpp', CC + 'ast.h'],
     [('name resolution, duplicate and argument checks', CC + 'sema.cpp'), ('slot assignment', CC + 'pre_codegen.cpp')],
     'The passes over names, scopes, argument counts, constants and slots are verified node kind by node kind: each visit function, the traversal and the lookups over any stack of scopes. Whole programs natively against an independent resolver (bounded).')
prop('C15', 'A saved program loads back as the same program, and damaged files are refused',
     "For every compiled program, saving and loading gives a program with the same code, strings, functions (name, arguments, locals, address range), host function names and line table, which runs identically once its host functions are resolved; loading replaces what was there before. A file that cannot be opened or written, is cut short, has a wrong header, or announces a text or code size larger than what is left of the file is refused without crash, over-read or leaked file, and saving reports failure when not everything was written.",
     ['inputs', 'histories'], 'all programs, all file contents, all points at which a file may be cut',
     WT + 'no test loads a saved program.', ['lib_common/program.cpp', 'lib_common/program.h', 'lib_common/file.h'],
     [('serial_save, serial_load', 'lib_common/program.cpp')],
     'Save and load of a text, a function, the line table and the program are executed symbolically down to fwrite/fread; what load reads back at each position is shown to be what save wrote there, for all tables and lengths, and every short read or write is shown to be reported. The names of globals are not part of a saved file (documented). Whole files natively (bounded, labelled).')
prop('C17', 'The host sees exactly the sources, functions and system calls of the program',
     "For every set of source files, a file is loaded once however it is imported, imports are looked up beside the importing file, a missing or failing import is reported with its own file and line, and a failed source adds nothing. The program lists exactly the functions written with their argument counts and names, every function is found by its name and by every address in its code and no other, each system call used is listed once and resolving a name binds exactly that call, building again after a reset gives the same program, and an unresolved call ends the script with its own error.",
     ['inputs', 'histories'], 'all sets of files and import graphs, all names, all addresses, any sequence of build and reset',
     WT + 'no test imports a file, looks up by address or rebuilds.', [CC + 'nano.cpp', 'lib_common/source.cpp', 'lib_common/source.h', 'lib_common/program.cpp', 'lib_common/program.h'],
     [('source manager and imports', 'lib_common/source.cpp'), ('program tables', 'lib_common/program.cpp'), ('build', CC + 'nano.cpp')],
     'Lookups by name and address, registration, resolution and reset of the program tables, the list of sources, path comparison and the path of an import are verified over tables and texts of any size. Whole builds natively (bounded).')
