// Accounts for (and refuses) the memory that the virtual machine requests from the system.  Include in one
// translation unit of a check only: replaces aligned_alloc/free and the global operator new/delete.
#pragma once
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <new>

extern "C" {
void* __libc_memalign(size_t align, size_t size);
void* __libc_malloc(size_t size);
void __libc_free(void* p);
}

namespace mc::sysmem {

struct Block {
    void* p;
    size_t size, align;
};
inline Block blocks[1 << 16]; // obtained with aligned_alloc: pages and large objects
inline size_t block_count = 0, bytes = 0, peak = 0;
inline uint64_t requests = 0;                                     // aligned_alloc calls
inline uint64_t refuse_first = UINT64_MAX, refuse_count = 0;      // these requests are refused
inline uint64_t refused = 0;
inline size_t max_request = size_t(1) << 30;                      // larger requests are refused
inline int64_t news = 0;                                          // outstanding objects of operator new
inline int errors = 0;

inline void reset() {
    requests = refused = 0;
    refuse_first = UINT64_MAX;
    refuse_count = 0;
    peak = bytes;
}

} // namespace mc::sysmem

extern "C" __attribute__((visibility("default"))) void* aligned_alloc(size_t align, size_t size) {
    using namespace mc::sysmem;
    if (size <= 4096) { // storage of handles
#ifdef MC_SAN
        void* a = nullptr;
        return posix_memalign(&a, align, size) == 0 ? a : nullptr;
#else
        return __libc_memalign(align, size);
#endif
    }
    const uint64_t i = requests++;
    if (size > max_request || (i >= refuse_first && i - refuse_first < refuse_count)) {
        refused += 1;
        errno = ENOMEM;
        return nullptr;
    }
#ifdef MC_SAN // only refuses; the sanitizer's allocator does not tell what is freed
    void* a = nullptr;
    return posix_memalign(&a, align, size) == 0 ? a : nullptr;
#endif
    void* p = __libc_memalign(align, size);
    if (p && block_count < sizeof(blocks) / sizeof(blocks[0])) {
        blocks[block_count++] = {p, size, align};
        bytes += size;
        if (bytes > peak)
            peak = bytes;
    }
    return p;
}

#ifndef MC_SAN
extern "C" __attribute__((visibility("default"))) void free(void* p) {
    using namespace mc::sysmem;
    if (p && block_count) {
        for (size_t i = block_count; i-- > 0;)
            if (blocks[i].p == p) {
                bytes -= blocks[i].size;
                blocks[i] = blocks[--block_count];
                break;
            }
    }
    __libc_free(p);
}

void* operator new(size_t n) {
    void* p = __libc_malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    mc::sysmem::news += 1;
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept {
    void* p = __libc_malloc(n ? n : 1);
    mc::sysmem::news += p != nullptr;
    return p;
}
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept {
    mc::sysmem::news -= p != nullptr;
    __libc_free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }
#endif // MC_SAN
