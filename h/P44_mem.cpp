// The allocator of P44: it fails on request, counts, and checks that blocks are given back the way they were obtained.
#include "P44_mem.hpp"

#include <cstdio>
#include <cstdlib>
#include <new>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(p, n) (void)0
#define ASAN_UNPOISON_MEMORY_REGION(p, n) (void)0
#endif

namespace mem
{

bool armed = false, tripped = false, persistent = false;
long count = 0, fail_at = -1, live = 0;

} // namespace mem

using namespace mem;

namespace
{

// Precedes the block.
struct Header {
    std::size_t size, offset;
    unsigned kind, magic;
};
constexpr unsigned magic = 0x600d600du;
enum { array = 1, aligned = 2 };

void *allocate(std::size_t n, std::size_t al, unsigned kind, bool nothrow)
{
    if (armed) {
        ++count;
        if (count == fail_at || (persistent && fail_at > 0 && count > fail_at)) {
            tripped = true;
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
    }
    static_assert(sizeof(Header) <= 32);
    const std::size_t off = al > 32u ? al : 32u;
    void *p = n > std::size_t(-1) / 2u ? nullptr : al > 16u ? std::aligned_alloc(al, (n + off + al - 1u) / al * al) : std::malloc(n + off);
    if (!p) {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    char *const r = static_cast<char *>(p) + off;
    *reinterpret_cast<Header *>(r - 32) = Header{n, off, kind, magic};
    ASAN_POISON_MEMORY_REGION(r - 32, 32);
    ++live;
    return r;
}
[[noreturn]] void wrong(const char *what)
{
    std::fprintf(stderr, "memory: %s\n", what);
    std::abort();
}
void release(void *p, unsigned kind, std::size_t n = std::size_t(-1))
{
    if (!p) return;
    char *const r = static_cast<char *>(p);
    ASAN_UNPOISON_MEMORY_REGION(r - 32, 32);
    auto *const h = reinterpret_cast<Header *>(r - 32);
    if (h->magic != magic) wrong("a block that was not allocated, or twice, is released");
    if (h->kind != kind) wrong("a block is released in another way than it was obtained");
    if (n != std::size_t(-1) && h->size != n) wrong("a block is released with another size");
    h->magic = 0;
    --live;
    std::free(r - h->offset);
}

} // namespace

void *operator new(std::size_t n)
{
    return allocate(n, 0, 0, false);
}
void *operator new[](std::size_t n)
{
    return allocate(n, 0, array, false);
}
void *operator new(std::size_t n, const std::nothrow_t &) noexcept
{
    return allocate(n, 0, 0, true);
}
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept
{
    return allocate(n, 0, array, true);
}
void *operator new(std::size_t n, std::align_val_t a)
{
    return allocate(n, static_cast<std::size_t>(a), aligned, false);
}
void *operator new[](std::size_t n, std::align_val_t a)
{
    return allocate(n, static_cast<std::size_t>(a), array | aligned, false);
}
void operator delete(void *p) noexcept
{
    release(p, 0);
}
void operator delete[](void *p) noexcept
{
    release(p, array);
}
void operator delete(void *p, std::size_t n) noexcept
{
    release(p, 0, n);
}
void operator delete[](void *p, std::size_t n) noexcept
{
    release(p, array, n);
}
void operator delete(void *p, const std::nothrow_t &) noexcept
{
    release(p, 0);
}
void operator delete[](void *p, const std::nothrow_t &) noexcept
{
    release(p, array);
}
void operator delete(void *p, std::align_val_t) noexcept
{
    release(p, aligned);
}
void operator delete[](void *p, std::align_val_t) noexcept
{
    release(p, array | aligned);
}
void operator delete(void *p, std::size_t n, std::align_val_t) noexcept
{
    release(p, aligned, n);
}
void operator delete[](void *p, std::size_t n, std::align_val_t) noexcept
{
    release(p, array | aligned, n);
}
