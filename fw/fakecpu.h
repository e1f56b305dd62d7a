// Included (-include) in front of the sources of libVc that execute `cpuid` and `xgetbv`: the assembler then
// replaces these instructions, however the source wrote them, with calls of the hooks in drivers/cpuid.cpp.
asm(".macro cpuid\n lea -128(%rsp),%rsp\n call vt_cpuid_hook\n lea 128(%rsp),%rsp\n.endm\n.macro xgetbv\n lea -128(%rsp),%rsp\n call vt_xgetbv_hook\n lea 128(%rsp),%rsp\n.endm\n");
