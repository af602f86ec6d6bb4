// Seam: every basic block and memory access of the instrumented library reaches these callbacks.
#include "core.hpp"
#include <cstdint>

extern "C" char __executable_start;
namespace {
inline void event() {
    sim::Seam& s = sim::seam;
    if (!s.armed) return;
    uint64_t c = s.count++;
    if (c >= s.fireAt && !sim::noPreempt && s.handler) { s.armed = 0; s.handler(); s.armed = 1; }
}
}
extern "C" {
void __sanitizer_cov_trace_pc(void) {
    if (sim::sh) {
        uintptr_t pc = reinterpret_cast<uintptr_t>(__builtin_return_address(0)) - reinterpret_cast<uintptr_t>(&__executable_start);
        size_t b = pc & (sim::PCBITS - 1);
        sim::sh->pcs[b >> 3] |= uint8_t(1u << (b & 7));
    }
    event();
}
// Accesses of a function to its own frame are private to the task: no preemption point of their own.
#define OWN(a) (reinterpret_cast<uintptr_t>(a) >= reinterpret_cast<uintptr_t>(__builtin_frame_address(0)) && reinterpret_cast<uintptr_t>(a) < *reinterpret_cast<uintptr_t*>(__builtin_frame_address(0)))
#define L(n) void __sanitizer_cov_load##n(void* a) { if (!OWN(a)) event(); } void __sanitizer_cov_store##n(void* a) { if (!OWN(a)) event(); }
L(1) L(2) L(4) L(8) L(16)
#ifndef SIM_NO_GUARD
// A task holding an initialisation guard is not preempted (a real scheduler would block the other task and come back).
int __cxa_guard_acquire(uint64_t* g) { if (*reinterpret_cast<uint8_t*>(g)) return 0; ++sim::noPreempt; return 1; }
void __cxa_guard_release(uint64_t* g) { *reinterpret_cast<uint8_t*>(g) = 1; --sim::noPreempt; }
void __cxa_guard_abort(uint64_t*) { --sim::noPreempt; }
#endif
}
