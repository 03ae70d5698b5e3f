#pragma once
namespace cpu_features { struct X86Features { int avx, avx2, avx512ifma, aes, bmi2, pclmulqdq, sse4_1; }; struct X86Info { X86Features features; }; inline X86Info GetX86Info() { return {}; } }
