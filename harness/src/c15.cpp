// C15: the monotonic buffer resource hands out disjoint memory and gives all of it back.
#define MC_MAIN
#include "../pfres.hpp"

#include <cetl/pf17/sys/memory_resource.hpp>

#include <limits>

using namespace mc;
namespace
{
namespace pm = cetl::pf17::pmr;

PfRes& up() { return pfres(0); }

alignas(64) unsigned char arena[192];
constexpr std::size_t kLead    = 64;
constexpr std::size_t kLargest = 70000;  // requests beyond it are absurd ones

struct Blk
{
    unsigned char* p;
    std::size_t    size, align;
    unsigned char  fill;
};
struct Cfg
{
    std::vector<std::size_t> buffers, offsets, sizes, aligns, upstream_max;
    int                      blocks;
};

template <typename R>
class World
{
public:
    World(R& r, unsigned char* buf, std::size_t n, std::size_t upmax, bool upstream, const Cfg& c)
        : r_(r), buf_(buf), n_(n), upmax_(upmax), upstream_(upstream), cfg(c)
    {
    }
    Key key()
    {
        StateHash h;
        h.h.u64(n_);
        h.h.u64(upmax_);
        h.h.u64(buf_ == nullptr ? 0 : 1 + static_cast<std::uint64_t>(buf_ - arena));
        for (auto& b : blocks)
        {
            h.h.u64(b.size * 256 + b.align);
            h.h.u64(b.fill);
        }
        h.h.u64(clean ? 1 : 0);
        h.h.u64(static_cast<std::uint64_t>(ex().faults_left));
        return h.finish();
    }
    void check_all()
    {
        MC_CHECK(r_.is_equal(r_) && r_ == r_, "the resource is not equal to itself");
        MC_CHECK(upstream_ ? r_.upstream_resource() == &up() : r_.upstream_resource() == pm::null_memory_resource(),
                 "another upstream is reported");
        MC_CHECK(r_.max_size() >= (buf_ != nullptr ? n_ : 0U), "max_size() is below the size of the initial buffer");
    }
    void check_blocks()
    {
        for (auto& b : blocks)
            for (std::size_t i = 0; i < b.size; i++)
                MC_CHECK(b.p[i] == b.fill, "byte %zu of an earlier block was overwritten", i);
        for (std::size_t i = 0; i < sizeof arena; i++)
            MC_CHECK(arena[i] == 0 || (buf_ != nullptr && arena + i >= buf_ && arena + i < buf_ + n_),
                     "a byte outside the initial buffer was written");
    }
    bool step()
    {
        switch (choose(3))
        {
        case 0: return op_allocate();
        case 1: return op_deallocate();
        default: return op_release();
        }
    }

private:
    bool op_allocate()
    {
        if (static_cast<int>(blocks.size()) >= cfg.blocks)
            return false;
        const std::size_t size  = cfg.sizes[choose(static_cast<unsigned>(cfg.sizes.size()))];
        const std::size_t align = cfg.aligns[choose(static_cast<unsigned>(cfg.aligns.size()))];
        note("allocate(%zu, %zu)", size, align);
        const int  used0 = ex().faults_used;
        void*      q     = nullptr;
        const Out  out   = guarded([&] { q = r_.allocate(size, align); });
        const bool faulted = ex().faults_used > used0;
        const bool first   = clean && buf_ != nullptr && n_ > 0 && size > 0 && fits(size, align);
        if (out != Out::ok || q == nullptr)
        {
#if defined(__cpp_exceptions)
            MC_CHECK(out == Out::alloc, "a failed request ends with %s", name(out));
#endif
            MC_CHECK(!first, "a request that fits the unused initial buffer fails");
            // an upstream with plenty of room must be used
            MC_CHECK(faulted || !upstream_ || upmax_ < (1UL << 20) || size > kLargest, "a request fails although the upstream has room");
            return true;
        }
        MC_CHECK(size <= kLargest, "a request for %zu bytes was granted", size);
        unsigned char* p = static_cast<unsigned char*>(q);
        MC_CHECK(reinterpret_cast<std::uintptr_t>(p) % align == 0, "a block of %zu bytes is not aligned to %zu", size, align);
        const bool inside = buf_ != nullptr && p >= buf_ && p + size <= buf_ + n_;
        if (!inside)
        {
            const Block* b = containing_block(p);
            MC_CHECK(b != nullptr && reinterpret_cast<char*>(p) + size <= b->p + b->size,
                     "a block of %zu bytes lies neither in the initial buffer nor in an upstream block", size);
        }
        if (first)
            MC_CHECK(inside, "the unused initial buffer is not used");
        for (auto& b : blocks)
            MC_CHECK(p + size <= b.p || b.p + b.size <= p || size == 0 || b.size == 0, "two blocks overlap");
        clean = false;
        Blk b{p, size, align, static_cast<unsigned char>(blocks.size() + 1)};
        std::memset(p, b.fill, size);
        blocks.push_back(b);
        return true;
    }
    bool op_deallocate()
    {
        if (blocks.empty())
            return false;
        const unsigned i = choose(static_cast<unsigned>(blocks.size()));
        note("deallocate(block %u)", i);
        const std::size_t held = live_blocks();
        r_.deallocate(blocks[i].p, blocks[i].size, blocks[i].align);
        // the block stays in the list: its memory must not be handed out again before release()
        MC_CHECK(live_blocks() == held, "deallocation returns memory to the upstream");
        return true;
    }
    bool op_release()
    {
        note("release()");
        r_.release();
        MC_CHECK(live_blocks() == 0, "%zu upstream block(s) kept by release()", live_blocks());
        blocks.clear();
        if (buf_ != nullptr)
            std::memset(buf_, 0, n_);
        clean = true;
        return true;
    }
    bool fits(std::size_t size, std::size_t align) const
    {
        const std::uintptr_t b = reinterpret_cast<std::uintptr_t>(buf_);
        const std::uintptr_t a = (b + align - 1) / align * align;
        return a - b <= n_ && n_ - (a - b) >= size;
    }
    R&               r_;
    unsigned char*   buf_;
    std::size_t      n_, upmax_;
    bool             upstream_;
    const Cfg&       cfg;
    std::vector<Blk> blocks;
    bool             clean = true;
};
template <typename R>
void explore(R& r, unsigned char* buf, std::size_t n, std::size_t upmax, bool upstream, const Cfg& cfg)
{
    World<R>  w(r, buf, n, upmax, upstream, cfg);
    const int depth = ex().depth;
    for (int d = 0;; d++)
    {
        const Key k = w.key();
        if (unseen(k))
            w.check_all();
        if (!boundary(k, depth - d) || d == depth)
            return;
        if (!w.step())
            return;
        transition();
        w.check_blocks();
    }
}
std::size_t pick(const std::vector<std::size_t>& v) { return v[choose(static_cast<unsigned>(v.size()))]; }
void prepare(std::size_t upmax)
{
    std::memset(arena, 0, sizeof arena);
    up().max         = upmax;
    tr().fixed_phase = true;  // how blocks are cut from a buffer depends on its address
}
template <typename R>
void with_buffer(const Cfg& cfg)
{
    const std::size_t n = pick(cfg.buffers), off = pick(cfg.offsets), upmax = pick(cfg.upstream_max);
    prepare(upmax);
    RootGuard      g(arena, sizeof arena);
    unsigned char* b = arena + kLead + off;
    note("initial buffer of %zu bytes at offset %zu, upstream max %zu", n, off, upmax);
    Slot<R> s;
    s.make(static_cast<void*>(b), n, &up());
    explore(*s, b, n, upmax, true, cfg);
}
template <typename R>
void alone(const Cfg& cfg)
{
    const std::size_t n = pick(cfg.buffers), off = pick(cfg.offsets);
    prepare(1UL << 20);
    RootGuard      g(arena, sizeof arena);
    unsigned char* b = arena + kLead + off;
    note("initial buffer of %zu bytes at offset %zu, no upstream", n, off);
    Slot<R> s;
    s.make(static_cast<void*>(b), n, pm::null_memory_resource());
    explore(*s, b, n, 0, false, cfg);
}
template <typename R>
void no_buffer(const Cfg& cfg)
{
    const std::size_t upmax = pick(cfg.upstream_max);
    const unsigned    form  = choose(3);
    prepare(upmax);
    Slot<R> s;
    if (form == 0)
        s.make(&up());
    else if (form == 1)
        s.make(std::size_t{16}, &up());
    else
        s.make(nullptr, std::size_t{40}, &up());
    note("no initial buffer, form %u, upstream max %zu", form, upmax);
    explore(*s, nullptr, 0, upmax, true, cfg);
}
/// The constructors that take the default resource.
void defaults(const Cfg& cfg)
{
    prepare(1UL << 20);
    pm::memory_resource* const old  = pm::set_default_resource(&up());
    const unsigned             form = choose(4);
    {
        RootGuard                          g(arena, sizeof arena);
        Slot<pm::monotonic_buffer_resource> s;
        note("default upstream, form %u", form);
        if (form == 0)
            s.make();
        else if (form == 1)
            s.make(std::size_t{24});
        else if (form == 2)
            s.make(static_cast<void*>(arena + kLead), std::size_t{24});
        else
            s.make(std::size_t{24}, &up());
        pm::set_default_resource(nullptr);
        explore(*s, form == 2 ? arena + kLead : nullptr, form == 2 ? 24 : 0, 1UL << 20, true, cfg);
    }
    pm::set_default_resource(old);
}
using B = pm::deviant::basic_monotonic_buffer_resource;
using M = pm::monotonic_buffer_resource;
constexpr std::size_t kHuge = std::numeric_limits<std::size_t>::max();

Cfg layout = {{0, 1, 7, 16, 40}, {0, 1, 2, 3, 5, 8, 12, 16, 31}, {0, 1, 3, 8, 17, 40, kHuge, kHuge / 2, kHuge / 4, kHuge - 40}, {1, 2, 4, 8, 16, 32, 64}, {1UL << 20, 70, 200}, 2};
Cfg deep   = {{16, 33}, {0, 5}, {1, 6, 16, 40}, {1, 8, 32}, {1UL << 20, 120}, 6};
Cfg medium = {{0, 16, 100}, {0}, {1, 100, 260, 600, 1000}, {1, 16}, {1UL << 20}, 6};
Cfg large  = {{0, 100}, {0}, {200, 4000, 4096, 20000, 65535, 65536, 70000}, {8, 256}, {1UL << 20}, 4};
#if !defined(PART) || PART == 1
MC_SCENARIO("medium/buffer", 4, 1, 5, 1, [] { with_buffer<B>(medium); });
MC_SCENARIO("medium/none", 4, 0, 5, 1, [] { no_buffer<B>(medium); });
MC_SCENARIO("large/buffer", 3, 1, 4, 1, [] { with_buffer<B>(large); });
MC_SCENARIO("large/sys", 3, 0, 4, 1, [] { with_buffer<M>(large); });
MC_SCENARIO("large/none", 3, 1, 4, 1, [] { no_buffer<B>(large); });
#endif
#if !defined(PART) || PART == 0
MC_SCENARIO("layout/buffer", 2, 1, 3, 1, [] { with_buffer<B>(layout); });
MC_SCENARIO("layout/alone", 2, 0, 3, 0, [] { alone<B>(layout); });
MC_SCENARIO("layout/none", 2, 1, 3, 1, [] { no_buffer<B>(layout); });
MC_SCENARIO("layout/sys", 2, 1, 3, 1, [] { with_buffer<M>(layout); });
MC_SCENARIO("deep/buffer", 5, 1, 6, 2, [] { with_buffer<B>(deep); });
MC_SCENARIO("deep/alone", 5, 0, 7, 0, [] { alone<B>(deep); });
MC_SCENARIO("deep/none", 5, 1, 6, 2, [] { no_buffer<B>(deep); });
MC_SCENARIO("deep/sys", 4, 1, 5, 2, [] { with_buffer<M>(deep); });
MC_SCENARIO("deep/defaults", 4, 1, 5, 2, [] { defaults(deep); });
#endif
}  // namespace
