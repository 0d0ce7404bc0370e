// Recording memory resources and the outcome of one operation.
#ifndef RESOURCE_HPP
#define RESOURCE_HPP

#include "track.hpp"

#include <cetl/pf17/cetlpf.hpp>

#include <stdexcept>

namespace mc
{
/// Memory resource backed by the block tracker.
struct Res final : cetl::pmr::memory_resource
{
    int         id;
    bool        may_fail = true;
    std::size_t max      = 1UL << 20;  // what it says about itself; larger requests fail
    explicit Res(int i) : id(i) {}
    Res(const Res&) = delete;

private:
    static int known(const cetl::pmr::memory_resource* o);

    void* do_allocate(std::size_t size, std::size_t align) override
    {
        void* const p = size > max ? nullptr : block_alloc(id, size, align, may_fail);
#if defined(__cpp_exceptions)
        if (p == nullptr)
            throw std::bad_alloc();
#endif
        return p;
    }
    void do_deallocate(void* p, std::size_t size, std::size_t align) override
    {
        if (p == nullptr)
        {
            return;
        }
        block_free(id, p, size, align);
    }
#if (__cplusplus < CETL_CPP_STANDARD_17)
    std::size_t do_max_size() const noexcept override { return max; }
    void*       do_reallocate(void* p, std::size_t old_size, std::size_t new_size, std::size_t align) override
    {
        void* const q = allocate(new_size, align);
        if (q != nullptr && p != nullptr)
        {
            std::memcpy(q, p, std::min(old_size, new_size));
            deallocate(p, old_size, align);
        }
        return q;
    }
#endif
    bool do_is_equal(const cetl::pmr::memory_resource& o) const noexcept override
    {
        const int other = known(&o);
        return this == &o || (other >= 0 && res_equal(id, other));
    }
};
inline Res& res(int i)
{
    static Res r0{0}, r1{1}, r2{2};
    return i == 0 ? r0 : (i == 1 ? r1 : r2);
}
inline int res_id(const cetl::pmr::memory_resource* r)
{
    for (int i = 0; i < 3; i++)
        if (r == &res(i))
            return i;
    return r == nullptr ? -1 : -2;
}

inline int Res::known(const cetl::pmr::memory_resource* o) { return res_id(o); }

enum class Out
{
    ok,
    length,
    alloc,
    injected,
    other
};
inline const char* name(Out o)
{
    switch (o)
    {
    case Out::ok: return "success";
    case Out::length: return "length_error";
    case Out::alloc: return "bad_alloc";
    case Out::injected: return "the exception of a value";
    case Out::other: return "an unexpected exception";
    }
    return "?";
}
/// Runs one operation with faults armed and says how it ended.
template <typename F>
inline Out guarded(F&& f, bool arm_faults = true)
{
#if defined(__cpp_exceptions)
    try
    {
        ArmFaults arm(arm_faults);
        f();
        return Out::ok;
    } catch (const std::length_error&)
    {
        return Out::length;
    } catch (const std::bad_alloc&)
    {
        return Out::alloc;
    } catch (const Injected&)
    {
        return Out::injected;
    } catch (...)
    {
        return Out::other;
    }
#else
    ArmFaults arm(arm_faults);
    f();
    return Out::ok;
#endif
}
}  // namespace mc
#endif
