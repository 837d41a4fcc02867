// Linked into the instrumented module only.  The allocation functions of the address sanitizer end the process when an
// allocation is too large; a normal build throws std::bad_alloc, which higra's bindings turn into MemoryError.
#include <cstdlib>
#include <new>
static void *get(std::size_t n) {
    void *p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static void *geta(std::size_t n, std::align_val_t a) {
    void *p = nullptr;
    if (posix_memalign(&p, (std::size_t) a < sizeof(void *) ? sizeof(void *) : (std::size_t) a, n ? n : 1)) throw std::bad_alloc();
    return p;
}
#define X __attribute__((visibility("default")))
X void *operator new(std::size_t n) { return get(n); }
X void *operator new[](std::size_t n) { return get(n); }
X void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return std::malloc(n ? n : 1); }
X void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return std::malloc(n ? n : 1); }
X void *operator new(std::size_t n, std::align_val_t a) { return geta(n, a); }
X void *operator new[](std::size_t n, std::align_val_t a) { return geta(n, a); }
X void operator delete(void *p) noexcept { std::free(p); }
X void operator delete[](void *p) noexcept { std::free(p); }
X void operator delete(void *p, std::size_t) noexcept { std::free(p); }
X void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
X void operator delete(void *p, const std::nothrow_t &) noexcept { std::free(p); }
X void operator delete[](void *p, const std::nothrow_t &) noexcept { std::free(p); }
X void operator delete(void *p, std::align_val_t) noexcept { std::free(p); }
X void operator delete[](void *p, std::align_val_t) noexcept { std::free(p); }
X void operator delete(void *p, std::size_t, std::align_val_t) noexcept { std::free(p); }
X void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { std::free(p); }
