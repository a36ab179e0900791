// operator new/delete on the simulated heap, attributed to the caller.
#include <cstddef>
#include <cstdint>
#include <new>
extern "C" void *sim_malloc_pc(size_t, size_t, uintptr_t);
extern "C" void sim_free_pc(void *, uintptr_t);
#define PC() ((uintptr_t)__builtin_return_address(0))
void *operator new(size_t n) { void *p = sim_malloc_pc(n ? n : 1, 16, PC()); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = sim_malloc_pc(n ? n : 1, 16, PC()); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim_malloc_pc(n ? n : 1, 16, PC()); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim_malloc_pc(n ? n : 1, 16, PC()); }
void *operator new(size_t n, std::align_val_t a) { void *p = sim_malloc_pc(n ? n : 1, (size_t)a, PC()); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n, std::align_val_t a) { void *p = sim_malloc_pc(n ? n : 1, (size_t)a, PC()); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { sim_free_pc(p, PC()); }
void operator delete[](void *p) noexcept { sim_free_pc(p, PC()); }
void operator delete(void *p, size_t) noexcept { sim_free_pc(p, PC()); }
void operator delete[](void *p, size_t) noexcept { sim_free_pc(p, PC()); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim_free_pc(p, PC()); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim_free_pc(p, PC()); }
void operator delete(void *p, std::align_val_t) noexcept { sim_free_pc(p, PC()); }
void operator delete[](void *p, std::align_val_t) noexcept { sim_free_pc(p, PC()); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { sim_free_pc(p, PC()); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { sim_free_pc(p, PC()); }
