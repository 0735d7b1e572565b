// Routes the library's C allocations to the driver's guarded allocator (same semantics, plus overflow detection).
#pragma once
#include <cstdlib>
extern "C" void* cexv_calloc(size_t, size_t);
extern "C" void* cexv_malloc(size_t);
extern "C" void cexv_free(void*);
namespace std { using ::cexv_calloc; using ::cexv_malloc; using ::cexv_free; }
#define calloc cexv_calloc
#define malloc cexv_malloc
#define free cexv_free
