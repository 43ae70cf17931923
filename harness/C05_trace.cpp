//B also the histories with the tracing of allocations compiled in (MEM_TRACE)
// The same histories with the tracing of the allocations compiled in.
#define MEM_TRACE
#include "C05_history.cpp"
