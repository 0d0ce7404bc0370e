// C18: the built-in resources keep the memory-resource contract.
#define MC_MAIN
#include "../pfres.hpp"

#include <cetl/pf17/array_memory_resource.hpp>
#include <cetl/pf17/buffer_memory_resource.hpp>
#include <cetl/pf17/sys/memory_resource.hpp>

#include <limits>
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();  // of the address sanitizer

using namespace mc;
namespace
{
namespace pm = cetl::pf17::pmr;

constexpr std::size_t kMax    = std::numeric_limits<std::size_t>::max();
const std::size_t     sizes[]  = {0, 1, 2, 7, 16, 33, 100, kMax, kMax - 15, kMax / 2, std::size_t{1} << 60};
const std::size_t     aligns[] = {1, 2, 4, 8, 16, 32, 64, 4096};

struct Blk
{
    unsigned char* p;
    std::size_t    size, align;
    unsigned char  fill;
};
void history(pm::memory_resource& r, bool null_resource)
{
    std::vector<Blk> blocks;
    const int        depth = ex().depth;
    for (int d = 0;; d++)
    {
        // the blocks are real ones, their addresses are no part of the state
        Hasher h;
        for (auto& b : blocks)
        {
            h.u64(b.size * 8192 + b.align);
            h.u64(b.fill);
        }
        const Key k = h.key();
        if (!boundary(k, depth - d) || d == depth)
            break;
        const unsigned op = choose(3);
        if (op == 0)
        {
            if (blocks.size() >= 3)
                break;
            const std::size_t size = sizes[choose(sizeof sizes / sizeof *sizes)], align = aligns[choose(sizeof aligns / sizeof *aligns)];
            note("allocate(%zu, %zu)", size, align);
            void*     q   = nullptr;
            const Out out = guarded([&] { q = r.allocate(size, align); });
#if defined(__cpp_exceptions)
            MC_CHECK(out == Out::ok || out == Out::alloc, "a failed request ends with %s", name(out));
            MC_CHECK(out != Out::ok || q != nullptr, "a failed request returns null instead of throwing");
#endif
            if (out != Out::ok || q == nullptr)
            {
                MC_CHECK(null_resource || size > 4096 || align > alignof(std::max_align_t), "a request for %zu bytes aligned to %zu fails", size, align);
            }
            else
            {
                MC_CHECK(!null_resource, "the null resource hands out memory");
                MC_CHECK(size <= 4096, "%zu bytes were granted", size);
                unsigned char* p = static_cast<unsigned char*>(q);
                MC_CHECK(reinterpret_cast<std::uintptr_t>(p) % align == 0, "a block is not aligned to %zu", align);
                unsigned char fill = 1;
                for (auto& b : blocks)
                {
                    MC_CHECK(b.p != p && (p + size <= b.p || b.p + b.size <= p), "two live blocks overlap");
                    fill = static_cast<unsigned char>(std::max<int>(fill, b.fill + 1));
                }
                std::memset(p, fill, size);
                blocks.push_back(Blk{p, size, align, fill});
            }
        }
        else if (op == 1)
        {
            if (null_resource)
            {
                note("deallocate(anything)");
                int x = 42;
                r.deallocate(choose(2) ? &x : nullptr, sizes[choose(sizeof sizes / sizeof *sizes)], aligns[choose(sizeof aligns / sizeof *aligns)]);
                MC_CHECK(x == 42, "the null resource writes to what is returned");
                transition();
                continue;
            }
            if (blocks.empty())
                break;
            const unsigned i = choose(static_cast<unsigned>(blocks.size()));
            const Blk      b = blocks[i];
            note("deallocate(block %u)", i);
            blocks.erase(blocks.begin() + i);
            r.deallocate(b.p, b.size, b.align);
        }
        else
        {
            const std::size_t size = sizes[1 + choose(sizeof sizes / sizeof *sizes - 1)], align = aligns[choose(sizeof aligns / sizeof *aligns)];
            unsigned char     mine[8] = {9, 9, 9, 9, 9, 9, 9, 9};
            if (!null_resource && blocks.empty())
                break;
            const unsigned i   = null_resource ? 0 : choose(static_cast<unsigned>(blocks.size()));
            const Blk      old = null_resource ? Blk{mine, 8, 8, 9} : blocks[i];
            note("reallocate(block %u of %zu, %zu, %zu)", i, old.size, size, align);
            void*     q   = nullptr;
            const Out out = guarded([&] { q = r.reallocate(old.p, old.size, size, align); });
#if defined(__cpp_exceptions)
            MC_CHECK(out == Out::ok || out == Out::alloc, "a failed reallocation ends with %s", name(out));
#endif
            if (out == Out::ok && q != nullptr)
            {
                MC_CHECK(!null_resource, "the null resource hands out memory");
                MC_CHECK(size <= 4096, "%zu bytes were granted", size);
                unsigned char* p = static_cast<unsigned char*>(q);
                MC_CHECK(reinterpret_cast<std::uintptr_t>(p) % align == 0, "a block is not aligned to %zu", align);
                for (std::size_t n = 0; n < std::min(size, old.size); n++)
                    MC_CHECK(p[n] == old.fill, "reallocation loses byte %zu", n);
                std::memset(p, old.fill, size);
                blocks[i].p    = p;
                blocks[i].size = size;
                blocks[i].align = align;
                for (std::size_t j = 0; j < blocks.size(); j++)
                    MC_CHECK(j == i || p + size <= blocks[j].p || blocks[j].p + blocks[j].size <= p, "two live blocks overlap");
            }
        }
        transition();
        for (auto& b : blocks)
            for (std::size_t n = 0; n < b.size; n++)
                MC_CHECK(b.p[n] == b.fill, "byte %zu of a live block was overwritten", n);
    }
    for (auto& b : blocks)
        r.deallocate(b.p, b.size, b.align);
}

/// Everything that can be compared.
void relations()
{
    static unsigned char                          b1[16], b2[16];
    pm::UnsynchronizedBufferMemoryResource        buf1(b1, 16), buf2(b2, 16);
    pm::UnsynchronizedArrayMemoryResource<16>     arr1, arr2;
    pm::monotonic_buffer_resource                 mono1(b1, 16, pm::null_memory_resource()), mono2(b1, 16, pm::null_memory_resource());
    pm::deviant::basic_monotonic_buffer_resource  bas1(b2, 16), bas2(b2, 16);
    pm::deviant::MaxAlignNewDeleteResource        mine1, mine2;
    tr().equal_class[0] = 7;
    tr().equal_class[1] = choose(2) ? 7 : 8;
    const pm::memory_resource* const all[] = {pm::null_memory_resource(), pm::new_delete_resource(), &mine1, &mine2, &mono1, &mono2, &bas1, &bas2, &pfres(0), &pfres(1)};
    constexpr unsigned               n     = sizeof all / sizeof *all;
    const unsigned                   i = choose(n), j = choose(n);
    const pm::memory_resource&       a = *all[i];
    const pm::memory_resource&       b = *all[j];
    note("resources %u and %u", i, j);
    const bool eq = i == j || (i >= 8 && j >= 8 && tr().equal_class[1] == 7);
    MC_CHECK((a == b) == eq, "a == b is %d, expected %d", a == b, eq);
    MC_CHECK((b == a) == eq, "equality is not symmetric");
    MC_CHECK((a != b) == !eq && (b != a) == !eq, "!= is not the opposite of ==");
    MC_CHECK(a.is_equal(b) == eq && b.is_equal(a) == eq, "is_equal() differs from ==");
    if (eq)
        MC_CHECK(a.max_size() == b.max_size(), "equal resources report different maximum sizes");
    Hasher h;
    h.u64(i * 16 + j);
    h.u64(eq);
    outcome(h.key());
#if (__cplusplus < CETL_CPP_STANDARD_17)
    {
        const cetl::pmr::memory_resource* const rs[] = {&buf1, &buf2, &arr1, &arr2, pm::null_memory_resource()};
        const unsigned                          x = choose(5), y = choose(5);
        MC_CHECK((*rs[x] == *rs[y]) == (x == y) && (*rs[x] != *rs[y]) == (x != y), "single-buffer resources: equality is not identity");
    }
#endif
    MC_CHECK(pm::null_memory_resource() == all[0] && pm::new_delete_resource() == all[1], "a built-in resource has no fixed identity");
    MC_CHECK(pm::null_memory_resource()->max_size() == 0, "the null resource claims %zu bytes", pm::null_memory_resource()->max_size());
    MC_CHECK(pm::new_delete_resource()->max_size() >= (1UL << 32), "the new/delete resource claims only %zu bytes", pm::new_delete_resource()->max_size());
}
/// A resource that overrides only what it must.
struct Minimal final : pm::memory_resource
{
    std::size_t size = 0, align = 0;
    void*       given = nullptr;
    int         calls = 0;
    char        spot  = 0;
    void*       do_allocate(std::size_t s, std::size_t a) override { return size = s, align = a, calls++, &spot; }
    void        do_deallocate(void* p, std::size_t s, std::size_t a) override { given = p, size = s, align = a, calls++; }
    bool        do_is_equal(const pm::memory_resource& o) const noexcept override { return &o == this; }
};
/// Counts every call and passes its arguments on.
struct Full final : pm::memory_resource
{
    void*       p = nullptr;
    std::size_t a = 0, b = 0, c = 0;
    char        spot = 0;
    void*       do_allocate(std::size_t, std::size_t) override { return nullptr; }
    void        do_deallocate(void*, std::size_t, std::size_t) override {}
    bool        do_is_equal(const pm::memory_resource&) const noexcept override { return true; }
    std::size_t most = 77;
    std::size_t do_max_size() const noexcept override { return most; }
    void*       do_reallocate(void* q, std::size_t x, std::size_t y, std::size_t z) override { return p = q, a = x, b = y, c = z, &spot; }
};
void base_class()
{
    Minimal           m;
    Full              f;
    const std::size_t size  = sizes[choose(sizeof sizes / sizeof *sizes)];
    const std::size_t align = aligns[choose(sizeof aligns / sizeof *aligns)];
    const bool        dflt  = choose(2) == 1;
    note("size %zu, alignment %zu, default alignment %d", size, align, dflt);
    MC_CHECK((dflt ? m.allocate(size) : m.allocate(size, align)) == &m.spot, "allocate() returns something else");
    MC_CHECK(m.size == size && m.align == (dflt ? alignof(std::max_align_t) : align) && m.calls == 1, "allocate() changes its arguments");
    char x;
    dflt ? m.deallocate(&x, size) : m.deallocate(&x, size, align);
    MC_CHECK(m.given == &x && m.size == size && m.align == (dflt ? alignof(std::max_align_t) : align) && m.calls == 2, "deallocate() changes its arguments");
    MC_CHECK(m.max_size() == kMax, "the default maximum size is %zu", m.max_size());
    MC_CHECK((dflt ? m.reallocate(&x, 1, size) : m.reallocate(&x, 1, size, align)) == nullptr, "the default reallocation does not fail");
    using Traits = pm::deviant::memory_resource_traits<pm::memory_resource>;
    pm::memory_resource& rf = f;
    MC_CHECK(f.max_size() == 77 && Traits::max_size(rf) == 77, "max_size() does not reach the resource");
    MC_CHECK((dflt ? f.reallocate(&x, 3, size) : f.reallocate(&x, 3, size, align)) == &f.spot, "reallocate() returns something else");
    MC_CHECK(f.p == &x && f.a == 3 && f.b == size && f.c == (dflt ? alignof(std::max_align_t) : align), "reallocate() changes its arguments");
    f.a = 0;
    MC_CHECK((dflt ? Traits::reallocate(rf, &x, 4, size) : Traits::reallocate(rf, &x, 4, size, align)) == static_cast<void*>(&f.spot), "reallocate() through the traits returns something else");
    MC_CHECK(f.p == &x && f.a == 4 && f.b == size && f.c == (dflt ? alignof(std::max_align_t) : align), "reallocate() through the traits changes its arguments");
    const pm::memory_resource &cf = f, &cm = m;
    MC_CHECK(cf == cm && !(cf != cm) && !(cm == cf) && cm != cf && cm == cm, "operator== does not ask the left resource");
    // the built-in resources equal nothing that merely looks like them
    Full zero;
    zero.most = 0;
    const pm::memory_resource &cz = zero, &cn = *pm::null_memory_resource(), &cd = *pm::new_delete_resource();
    MC_CHECK(!(cn == cz) && cn != cz && !cn.is_equal(cz) && !(cn == cf), "the null resource equals another one");
    zero.most = cd.max_size();
    MC_CHECK(!(cd == cz) && cd != cz && !cd.is_equal(cz) && !(cd == cf), "the new/delete resource equals another one");
    // resources of other libraries have no maximum size and cannot reallocate
    struct Foreign
    {
        void* allocate(std::size_t, std::size_t) { return nullptr; }
    } foreign;
    using Other = pm::deviant::memory_resource_traits<Foreign>;
    MC_CHECK(Other::max_size(foreign) == kMax && !Other::is_reallocate_defined::value && Traits::is_reallocate_defined::value, "the traits of a foreign resource are wrong");
    MC_CHECK((dflt ? Other::reallocate(foreign, &x, 4, size) : Other::reallocate(foreign, &x, 4, size, align)) == nullptr, "a foreign resource reallocates");
    Hasher h;
    h.u64(size);
    h.u64(align * 2 + dflt);
    outcome(h.key());
}
/// What is returned is really released.
void given_back()
{
    const std::size_t size = 1 + 900 * choose(2), align = aligns[choose(5)];
    const bool        re   = choose(2) == 1;
    note("blocks of %zu bytes aligned to %zu again and again%s", size, align, re ? ", reallocated" : "");
    pm::memory_resource& r = *pm::new_delete_resource();
    const std::size_t before = __sanitizer_get_current_allocated_bytes();
    for (int i = 0; i < 2000; i++)
    {
        std::size_t n = size;
        void*       p = r.allocate(n, align);
        if (re)
        {
            void* const q = r.reallocate(p, n, n + 50, align);
            if (q != nullptr)
                p = q, n += 50;
        }
        r.deallocate(p, n, align);
    }
    const std::size_t after = __sanitizer_get_current_allocated_bytes();
    MC_CHECK(after < before + 1000 * size, "memory given back is not released");
    Hasher h;
    h.u64(size * 64 + align + (re ? 1U << 20 : 0U));
    outcome(h.key());
}
MC_SCENARIO("given-back", 1, 0, 1, 0, given_back);
MC_SCENARIO("history/newdelete", 4, 0, 5, 0, [] { history(*pm::new_delete_resource(), false); });
MC_SCENARIO("history/own", 4, 0, 5, 0, [] {
    pm::deviant::MaxAlignNewDeleteResource r;
    history(r, false);
});
MC_SCENARIO("history/null", 4, 0, 5, 0, [] { history(*pm::null_memory_resource(), true); });
MC_SCENARIO("relations", 1, 0, 1, 0, relations);
MC_SCENARIO("base", 1, 0, 1, 0, base_class);
}  // namespace
