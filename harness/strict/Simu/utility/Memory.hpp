// Stands in for the pool allocator: every allocation is one of its own, so that an access after a release is seen.
// Everything else of the header is the repository's.
#pragma once
#define FreeListAllocator PooledAllocator
#include_next <Simu/utility/Memory.hpp>
#undef FreeListAllocator
#include <memory>
#include <new>

namespace simu
{
template <class T, std::size_t blockSize = 32 * 1024>
class FreeListAllocator
{
public:
    typedef T value_type;
    typedef T* pointer;
    typedef std::size_t size_type;
    template <class U>
    struct rebind
    {
        typedef FreeListAllocator<U, blockSize> other;
    };
    FreeListAllocator() : tag{std::make_shared<int>(0)} {}
    FreeListAllocator(const FreeListAllocator& o) noexcept : tag{o.tag} {}
    FreeListAllocator& operator=(const FreeListAllocator& o) noexcept
    {
        tag = o.tag;
        return *this;
    }
    template <class U>
    FreeListAllocator(const FreeListAllocator<U, blockSize>& o) noexcept : tag{o.tag}
    {
    }
    FreeListAllocator select_on_container_copy_construction() const noexcept { return *this; }
    typedef std::true_type propagate_on_container_copy_assignment;
    typedef std::true_type propagate_on_container_move_assignment;
    typedef std::true_type propagate_on_container_swap;
    T* allocate(std::size_t n) { return n ? static_cast<T*>(::operator new(n * sizeof(T))) : nullptr; }
    void deallocate(T* p, std::size_t) noexcept
    {
        if (p) ::operator delete(p);
    }
    template <class U>
    bool operator==(const FreeListAllocator<U, blockSize>& o) const noexcept
    {
        return tag == o.tag;
    }
    template <class U>
    bool operator!=(const FreeListAllocator<U, blockSize>& o) const noexcept
    {
        return !(*this == o);
    }
    std::shared_ptr<int> tag;
};
} // namespace simu
