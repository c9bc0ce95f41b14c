// A stand-in for github.com/pavel-kirienko/o1heap (not installed here) with the same interface and contract: blocks are
// aligned to O1HEAP_ALIGNMENT and no better, the instance lives at the start of the arena, zero bytes and requests that do
// not fit give a null pointer. It notes every misuse.
#pragma once
#include <cstddef>
#include <cstdint>

#define O1HEAP_ALIGNMENT (sizeof(void*) * 4U)

struct O1HeapInstance
{
    char*       begin;
    char*       end;
    std::size_t allocations;
    std::size_t frees;
    const char* misuse;
};
O1HeapInstance* o1heapInit(void* base, std::size_t size);
void*           o1heapAllocate(O1HeapInstance* handle, std::size_t amount);
void            o1heapFree(O1HeapInstance* handle, void* pointer);
