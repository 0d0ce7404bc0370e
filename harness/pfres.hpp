// Recording resource derived from CETL's own memory_resource, whatever the language standard.
#ifndef PFRES_HPP
#define PFRES_HPP

#include "resource.hpp"

#include <cetl/pf17/memory_resource.hpp>

namespace mc
{
struct PfRes final : cetl::pf17::pmr::memory_resource
{
    int         id;
    std::size_t max = 1UL << 20;
    explicit PfRes(int i) : id(i) {}

private:
    static int known(const cetl::pf17::pmr::memory_resource* o);

    void* do_allocate(std::size_t size, std::size_t align) override
    {
        void* const p = size > max ? nullptr : block_alloc(id, size, align);
#if defined(__cpp_exceptions)
        if (p == nullptr)
            throw std::bad_alloc();
#endif
        return p;
    }
    void  do_deallocate(void* p, std::size_t size, std::size_t align) override { block_free(id, p, size, align); }
    void* do_reallocate(void* p, std::size_t old_size, std::size_t new_size, std::size_t align) override
    {
        if (new_size > max)
            return nullptr;
        void* const q = block_alloc(id, new_size, align);
        if (q == nullptr)
            return nullptr;
        std::memcpy(q, p, std::min(old_size, new_size));
        block_free(id, p, old_size, align);
        return q;
    }
    std::size_t do_max_size() const noexcept override { return max; }
    bool        do_is_equal(const cetl::pf17::pmr::memory_resource& o) const noexcept override
    {
        const int other = known(&o);
        return this == &o || (other >= 0 && res_equal(id, other));
    }
};
inline PfRes& pfres(int i)
{
    static PfRes r0{0}, r1{1};
    return i == 0 ? r0 : r1;
}
inline int PfRes::known(const cetl::pf17::pmr::memory_resource* o)
{
    for (int i = 0; i < 2; i++)
        if (o == &pfres(i))
            return i;
    return -1;
}
}  // namespace mc
#endif
