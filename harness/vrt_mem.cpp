// operator new/delete with poisoned, delayed reuse: a use after free shows in what the history does.
#include <stdlib.h>
#include <string.h>
#include <new>
#include <stdint.h>
namespace
{
struct Hdr { size_t n; size_t magic; };
const size_t QN = 4096, MAG = 0x5afe5afe5afe5afeull;
void *q[QN];
size_t qi;
long live;
void *get(size_t n)
{
    Hdr *h = (Hdr *)malloc(n + sizeof(Hdr));
    if (!h) abort();
    h->n = n;
    h->magic = MAG;
    __atomic_fetch_add(&live, (long)n, __ATOMIC_RELAXED);
    memset(h + 1, 0xCD, n < 4096 ? n : 4096);
    return h + 1;
}
void put(void *p)
{
    if (!p) return;
    Hdr *h = (Hdr *)p - 1;
    if (h->magic != MAG) abort(); // double free or a pointer that was never handed out
    h->magic = 0xdeaddeaddeaddeadull;
    __atomic_fetch_sub(&live, (long)h->n, __ATOMIC_RELAXED);
    memset(p, 0xDD, h->n < 65536 ? h->n : 65536);
    size_t i = __atomic_fetch_add(&qi, 1, __ATOMIC_RELAXED) % QN;
    void *old = __atomic_exchange_n(&q[i], (void *)h, __ATOMIC_RELAXED);
    if (old) free(old);
}
}
void *operator new(size_t n) { return get(n); }
void *operator new[](size_t n) { return get(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return get(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return get(n); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
extern "C" size_t vrt_live() { return (size_t)live; }
