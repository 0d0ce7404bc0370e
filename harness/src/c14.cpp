// C14: the single-buffer resources never hand out bad or shared memory.
#define MC_MAIN
#include "../resource.hpp"

#include <cetl/pf17/array_memory_resource.hpp>
#include <cetl/pf17/buffer_memory_resource.hpp>
#include <cetl/pmr/buffer_memory_resource_delegate.hpp>

#include <limits>

using namespace mc;
namespace
{
/// An upstream without a reallocate() member, as the standard's resources are.
struct PlainUpstream
{
    void* allocate(std::size_t n, std::size_t a)
    {
        void* const p = block_alloc(0, n, a);
#if defined(__cpp_exceptions)
        if (p == nullptr)
            throw std::bad_alloc();
#endif
        return p;
    }
    void deallocate(void* p, std::size_t n, std::size_t a) { block_free(0, p, n, a); }
};
PlainUpstream plain_upstream;

alignas(64) unsigned char arena[160];

struct Blk
{
    unsigned char* p;
    std::size_t    size, align;
    unsigned char  fill;
    bool           inside;  // in the buffer
};
struct Cfg
{
    std::vector<std::size_t> buffers, offsets, limits, sizes, aligns;
    int                      blocks;
};

template <typename R>
class World
{
public:
    World(R& r, unsigned char* buf, std::size_t n, std::size_t limit, const Cfg& c) : r_(r), buf_(buf), n_(n), limit_(limit), cfg(c) {}

    Key key()
    {
        StateHash h;
        h.h.u64(n_);
        h.h.u64(limit_);
        for (auto& b : blocks)
        {
            h.h.u64(b.size * 256 + b.align);
            h.h.u64(b.fill);
            h.h.u64(b.inside ? static_cast<std::uint64_t>(b.p - buf_) : 999U);
        }
        h.h.u64(static_cast<std::uint64_t>(ex().faults_left));
        return h.finish();
    }
    void check_all()
    {
        MC_CHECK(r_.data() == buf_ && static_cast<const R&>(r_).data() == buf_, "data() is not the buffer");
        MC_CHECK(r_.size() == n_, "size() is %zu, expected %zu", r_.size(), n_);
        const std::size_t top  = static_cast<std::size_t>(std::numeric_limits<std::ptrdiff_t>::max());
        const std::size_t want = limit_ > top - n_ ? top : n_ + limit_;
        MC_CHECK(r_.max_size() == want, "max_size() is %zu, expected %zu", r_.max_size(), want);
    }
    void check_blocks()
    {
        std::size_t up = 0;
        for (auto& b : blocks)
        {
            for (std::size_t i = 0; i < b.size; i++)
                MC_CHECK(b.p[i] == b.fill, "byte %zu of a live block was overwritten", i);
            up += b.inside ? 0U : 1U;
        }
        MC_CHECK(live_blocks() == up, "%zu upstream blocks held, %zu handed out", live_blocks(), up);
    }
    bool step()
    {
        switch (choose(3))
        {
        case 0: return op_allocate();
        case 1: return op_deallocate();
        default: return op_reallocate();
        }
    }
    void drain()
    {
        ArmFaults off(false);
        while (!blocks.empty())
        {
            r_.deallocate(blocks.back().p, blocks.back().size, blocks.back().align);
            blocks.pop_back();
        }
    }

private:
    bool fits(std::size_t size, std::size_t align) const
    {
        const std::uintptr_t b = reinterpret_cast<std::uintptr_t>(buf_);
        const std::uintptr_t a = (b + align - 1) / align * align;
        return a - b <= n_ && n_ - (a - b) >= size;
    }
    bool buffer_used() const
    {
        for (auto& b : blocks)
            if (b.inside)
                return true;
        return false;
    }
    unsigned char fresh_fill() const
    {
        for (unsigned char f = 1;; f++)
        {
            bool used = false;
            for (auto& b : blocks)
                used = used || b.fill == f;
            if (!used)
                return f;
        }
    }
    bool in_buffer(const unsigned char* p, std::size_t size) const { return p >= buf_ && p + size <= buf_ + n_; }

    /// Common rules for a block that was just handed out. Returns whether it is in the buffer.
    bool check_new(unsigned char* p, std::size_t size, std::size_t align, const Blk* replaces)
    {
        MC_CHECK(reinterpret_cast<std::uintptr_t>(p) % align == 0, "a block of %zu bytes is not aligned to %zu", size, align);
        const Block* up     = find_block(p);
        const bool   inside = in_buffer(p, size) && up == nullptr;
        if (inside)
        {
            for (auto& b : blocks)
                MC_CHECK(&b == replaces || !b.inside, "the buffer is handed out a second time while its block is live");
        }
        else
        {
            MC_CHECK(up != nullptr, "a block of %zu bytes is neither inside the buffer nor from upstream", size);
            MC_CHECK(up->size == size && up->align == align, "upstream was asked for %zu/%zu instead of %zu/%zu", up->size, up->align, size, align);
        }
        return inside;
    }
    bool op_allocate()
    {
        if (static_cast<int>(blocks.size()) >= cfg.blocks)
            return false;
        const std::size_t size = cfg.sizes[choose(static_cast<unsigned>(cfg.sizes.size()))];
        const std::size_t align = cfg.aligns[choose(static_cast<unsigned>(cfg.aligns.size()))];
        note("allocate(%zu, %zu)", size, align);
        const int  used0    = ex().faults_used;
        const bool expected = !buffer_used() && fits(size, align) && n_ > 0;
        void*      q        = nullptr;
        const Out  out      = guarded([&] { q = r_.allocate(size, align); });
        const bool faulted  = ex().faults_used > used0;
        if (out != Out::ok || q == nullptr)
        {
#if defined(__cpp_exceptions)
            MC_CHECK(out == Out::alloc, "a failed request ends with %s", name(out));
#endif
            MC_CHECK(!expected, "a request that fits the free buffer fails");
            MC_CHECK(faulted || size > limit_ || size == 0, "a request within the upstream limit fails");
            return true;
        }
        MC_CHECK(!faulted, "upstream failed but the request succeeds");
        unsigned char* p      = static_cast<unsigned char*>(q);
        const bool     inside = check_new(p, size, align, nullptr);
        if (size > 0)
        {
            MC_CHECK(!expected || inside, "the free buffer is not used for a request that fits");
            MC_CHECK(inside || size <= limit_, "a request above the upstream limit was passed upstream");
        }
        Blk b{p, size, align, fresh_fill(), inside};
        std::memset(p, b.fill, size);
        blocks.push_back(b);
        return true;
    }
    bool op_deallocate()
    {
        if (blocks.empty())
            return false;
        const unsigned i = choose(static_cast<unsigned>(blocks.size()));
        const Blk      b = blocks[i];
        note("deallocate(block %u of %zu bytes)", i, b.size);
        blocks.erase(blocks.begin() + i);
        r_.deallocate(b.p, b.size, b.align);
        return true;
    }
    bool op_reallocate()
    {
        if (blocks.empty())
            return false;
        const unsigned    i    = choose(static_cast<unsigned>(blocks.size()));
        const std::size_t size = cfg.sizes[choose(static_cast<unsigned>(cfg.sizes.size()))];
        if (size == 0)
            return false;
        // the alignment of a block may change, as long as the block is released with the last one
        const std::size_t align = blocks[i].inside ? cfg.aligns[choose(static_cast<unsigned>(cfg.aligns.size()))] : blocks[i].align;
        const Blk         old   = blocks[i];
        note("reallocate(block %u of %zu bytes, %zu, %zu)", i, old.size, size, align);
        void*     q   = nullptr;
        const Out out = guarded([&] { q = r_.reallocate(old.p, old.size, size, align); });
        if (out != Out::ok || q == nullptr)
        {
#if defined(__cpp_exceptions)
            MC_CHECK(out == Out::ok || out == Out::alloc, "a failed reallocation ends with %s", name(out));
#endif
            return true;  // the old block stays valid: check_blocks() looks at its contents
        }
        unsigned char* p      = static_cast<unsigned char*>(q);
        const bool     inside = check_new(p, size, align, &blocks[i]);
        const std::size_t keep = std::min(old.size, size);
        for (std::size_t k = 0; k < keep; k++)
            MC_CHECK(p[k] == old.fill, "reallocation loses byte %zu of the old contents", k);
        Blk b{p, size, align, fresh_fill(), inside};
        std::memset(p, b.fill, size);
        blocks[i] = b;
        return true;
    }

    R&               r_;
    unsigned char*   buf_;
    std::size_t      n_, limit_;
    const Cfg&       cfg;
    std::vector<Blk> blocks;
};
template <typename R>
void explore(R& r, unsigned char* buf, std::size_t n, std::size_t limit, const Cfg& cfg)
{
    World<R>  w(r, buf, n, limit, cfg);
    const int depth = ex().depth;
    for (int d = 0;; d++)
    {
        const Key k = w.key();
        if (unseen(k))
            w.check_all();
        if (!boundary(k, depth - d) || d == depth)
            break;
        if (!w.step())
            break;
        transition();
        w.check_blocks();
    }
    w.drain();
}
std::size_t pick(const std::vector<std::size_t>& v) { return v[choose(static_cast<unsigned>(v.size()))]; }

/// Prepares the bytes the buffer lives in: everything outside it is off limits.
struct Arena
{
    unsigned char* p;
    RootGuard      guard;
    Arena(std::size_t off, std::size_t n) : p(arena + 32 + off), guard(arena + 32, 96)
    {
        MC_UNPOISON(arena, sizeof arena);
        std::memset(arena, 0, sizeof arena);
    }
    ~Arena()
    {
        for (std::size_t i = 0; i < sizeof arena; i++)
            MC_CHECK(arena[i] == 0 || (arena + i >= p && arena + i < p + 64), "a byte outside the buffer was written");
    }
};
constexpr std::size_t kAll = std::numeric_limits<std::size_t>::max();

void buffer_world(const Cfg& cfg)
{
    const std::size_t n = pick(cfg.buffers), off = pick(cfg.offsets), limit = pick(cfg.limits);
    Arena             a(off, n);
    note("buffer of %zu bytes at offset %zu, upstream limit %zu", n, off, limit);
    using R = cetl::pf17::pmr::UnsynchronizedBufferMemoryResource;
    struct Pub : RootGuard
    {
        R r;
        Pub(void* b, std::size_t m, std::size_t l) : RootGuard(&r, sizeof r), r(b, m, &res(0), l) {}
    };
    Pub pub(n == 0 ? nullptr : a.p, n, limit);
    explore(pub.r, n == 0 ? nullptr : a.p, n, limit, cfg);
    MC_CHECK(pub.r == pub.r, "a resource is not equal to itself");
}
void alone_world(const Cfg& cfg)
{
    const std::size_t n = pick(cfg.buffers), off = pick(cfg.offsets);
    Arena             a(off, n);
    note("buffer of %zu bytes at offset %zu without upstream", n, off);
    using R = cetl::pf17::pmr::UnsynchronizedBufferMemoryResource;
    R         r(n == 0 ? nullptr : a.p, n);
    RootGuard g(&r, sizeof r);
    explore(r, n == 0 ? nullptr : a.p, n, 0, cfg);
}
void delegate_world(const Cfg& cfg)
{
    const std::size_t n = pick(cfg.buffers), off = pick(cfg.offsets), limit = pick(cfg.limits);
    Arena             a(off, n);
    note("delegate for %zu bytes at offset %zu, upstream limit %zu", n, off, limit);
    using R = cetl::pmr::UnsynchronizedBufferMemoryResourceDelegate<PlainUpstream>;
    R         r(n == 0 ? nullptr : a.p, n, &plain_upstream, limit);
    RootGuard g(&r, sizeof r);
    MC_CHECK(r.upstream_resource() == &plain_upstream, "another upstream is reported");
    explore(r, n == 0 ? nullptr : a.p, n, limit, cfg);
}
template <std::size_t N>
void array_world(const Cfg& cfg)
{
    const std::size_t limit = pick(cfg.limits);
    const bool        alone = choose(2) == 1;
    if (alone && limit != 0)
        return;
    note("array of %zu bytes, upstream limit %zu", N, limit);
    using R = cetl::pf17::pmr::UnsynchronizedArrayMemoryResource<N>;
    Slot<R> s;
    if (alone)
        s.make();
    else
        s.make(&res(0), limit);
    unsigned char* const data = static_cast<unsigned char*>(s->data());
    MC_CHECK(data >= s.raw && data + N <= s.raw + sizeof(R), "the array is not part of the object");
    explore(*s, data, N, limit, cfg);
}

Cfg layout = {{0, 1, 8, 16, 24}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 15, 16}, {0, 9, kAll}, {0, 1, 8, 9, 16, 17, 24, 25}, {1, 2, 4, 8, 16, 32}, 1};
Cfg deep   = {{8, 16}, {0, 3, 8}, {0, 8, 20, kAll}, {1, 8, 12, 16, 20}, {1, 4, 16}, 3};
template <std::size_t N>
Cfg around() { return Cfg{{}, {}, {0, N, N + 1, kAll}, {0, 1, N / 2, N - 1, N, N + 1, 2 * N}, {1, 16, 64}, 2}; }
/// Memory of one resource cannot be given back to another, so no two resources are equal.
void others()
{
    using R  = cetl::pf17::pmr::UnsynchronizedBufferMemoryResource;
    using A8 = cetl::pf17::pmr::UnsynchronizedArrayMemoryResource<8>;
    using A9 = cetl::pf17::pmr::UnsynchronizedArrayMemoryResource<9>;
    alignas(16) static unsigned char x[16], y[16];
    R  a(x, 16, &res(0), 8), b(y, 16, &res(0), 8), c(y, 8, &res(0), 16), d(y, 8);
    A8 e(&res(0), 16), f(&res(0), 16), g;
    A9 h1;
    const cetl::pf17::pmr::memory_resource* const all[] = {&a, &b, &c, &d, &e, &f, &g, &h1, &res(0), &res(1)};
    const unsigned i = choose(10), j = choose(10);
    note("resources %u and %u", i, j);
    MC_CHECK((*all[i] == *all[j]) == (i == j) && (*all[i] != *all[j]) == (i != j) && all[i]->is_equal(*all[j]) == (i == j), "resources %u and %u are %s", i, j, *all[i] == *all[j] ? "equal" : "unequal");
    Hasher k;
    k.u64(i * 10 + j);
    outcome(k.key());
}
#if !defined(PART) || PART == 1
MC_SCENARIO("array300", 3, 1, 4, 1, [] { array_world<300>(around<300>()); });
MC_SCENARIO("array5000", 2, 1, 3, 1, [] { array_world<5000>(around<5000>()); });
MC_SCENARIO("array65536", 2, 0, 3, 1, [] { array_world<65536>(around<65536>()); });
MC_SCENARIO("others", 0, 0, 0, 0, [] { others(); });
#endif
#if !defined(PART) || PART == 0
MC_SCENARIO("layout/buffer", 2, 1, 3, 1, [] { buffer_world(layout); });
MC_SCENARIO("layout/alone", 2, 0, 3, 0, [] { alone_world(layout); });
MC_SCENARIO("layout/delegate", 2, 1, 3, 1, [] { delegate_world(layout); });
MC_SCENARIO("layout/array8", 3, 1, 4, 1, [] { array_world<8>(layout); });
MC_SCENARIO("layout/array24", 3, 1, 4, 1, [] { array_world<24>(layout); });
MC_SCENARIO("deep/buffer", 4, 1, 5, 2, [] { buffer_world(deep); });
MC_SCENARIO("deep/alone", 5, 0, 7, 0, [] { alone_world(deep); });
MC_SCENARIO("deep/delegate", 4, 1, 5, 2, [] { delegate_world(deep); });
MC_SCENARIO("deep/array16", 4, 1, 6, 2, [] { array_world<16>(deep); });
#endif
}  // namespace
