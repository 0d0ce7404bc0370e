/* The interface of the O(1) heap library as the memory resource sees it; the functions are defined by the check. */
#ifndef O1HEAP_H_INCLUDED
#define O1HEAP_H_INCLUDED

#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

#ifdef __cplusplus
extern "C" {
#endif

#define O1HEAP_ALIGNMENT (sizeof(void*) * 4U)

typedef struct O1HeapInstance O1HeapInstance;

typedef struct
{
    size_t   capacity;
    size_t   allocated;
    size_t   peak_allocated;
    size_t   peak_request_size;
    uint64_t oom_count;
} O1HeapDiagnostics;

O1HeapInstance*   o1heapInit(void* const base, const size_t size);
void*             o1heapAllocate(O1HeapInstance* const handle, const size_t amount);
void              o1heapFree(O1HeapInstance* const handle, void* const pointer);
bool              o1heapDoInvariantsHold(const O1HeapInstance* const handle);
O1HeapDiagnostics o1heapGetDiagnostics(const O1HeapInstance* const handle);

#ifdef __cplusplus
}
#endif
#endif
