TRUSTED = [
    'clang 18 front end at -O0 and the sroa pass: the LLVM IR verified is what the debug build computes (extraction drops nothing but debug info)',
    'nv: IR reader, symbolic executor and loop summariser in /verif/nv',
    'z3',
]
ASSUMPTIONS = [
    'signed int overflow of +, -, * wraps (the debug build is compiled -O0; the IR is read with wrapping semantics)',
    'memory is a set of disjoint blocks; calls through null this-pointers behave as the -O0 build does (-fno-delete-null-pointer-checks)',
    'std::vector, std::string, std::map, std::set, memcpy/memset/strlen/strcmp/snprintf behave as their standard contracts (nv/models.py, nv/world.py); allocation by the C++ runtime succeeds',
    'bytecode handed to the interpreter satisfies the per-opcode precondition of nv/vmspec.py:precondition (operands inside the image, enough values on the stack, table indices valid, at least one call frame)',
    'loop trip counts below 2^31',
]
