// Values of many sizes in unbounded variants: every pair of sizes and every transfer. Shared by C08 and C09.
#ifndef UV_WIDE_HPP
#define UV_WIDE_HPP

#include "../resource.hpp"

#include <cetl/rtti.hpp>
#include <cetl/unbounded_variant.hpp>

namespace wide
{
using namespace mc;

/// Bytes that depend on a seed and on their position.
template <std::size_t N>
struct Bulk
{
    unsigned char b[N];
    explicit Bulk(int seed)
    {
        for (std::size_t i = 0; i < N; i++)
            b[i] = at(seed, i);
    }
    static unsigned char at(int seed, std::size_t i) { return static_cast<unsigned char>(seed * 37 + static_cast<int>(i * 7 + (i >> 8))); }
    bool                 is(int seed) const
    {
        for (std::size_t i = 0; i < N; i++)
            if (b[i] != at(seed, i))
                return false;
        return true;
    }
    static constexpr cetl::type_id _get_type_id_() noexcept
    {
        return {{0x42, static_cast<std::uint8_t>(N), static_cast<std::uint8_t>(N >> 8), static_cast<std::uint8_t>(N >> 16)}};
    }
};
constexpr std::size_t kSizes[] = {1,  2,   3,   4,   7,   8,   9,   15,  16,  17,   24,   31,   32,   33,   47,   48,   63,    64,   65,
                                  96, 100, 127, 128, 129, 200, 255, 256, 257, 300,  511,  512,  513,  1000, 1023, 1024, 1025, 4095, 4096,
                                  4097, 10000, 32768, 65535, 65536, 65537, 70000};
constexpr int         kCount   = static_cast<int>(sizeof kSizes / sizeof kSizes[0]);

template <std::size_t F, bool Copyable, bool Movable, bool Pmr>
struct Wide
{
    using V = cetl::unbounded_variant<F, Copyable, Movable, 16, std::conditional_t<Pmr, cetl::pmr::memory_resource, void>>;
    using IsPmr = std::integral_constant<bool, Pmr>;
    static int count()
    {
        int n = 0;
        while (n < kCount && (Pmr || kSizes[n] <= F))
            n++;
        return n;
    }
    template <typename Fn, std::size_t I, std::enable_if_t<(Pmr || kSizes[I] <= F), int> = 0>
    static void call(Fn& f)
    {
        f(static_cast<Bulk<kSizes[I]>*>(nullptr));
    }
    template <typename Fn, std::size_t I, std::enable_if_t<!(Pmr || kSizes[I] <= F), int> = 0>
    static void call(Fn&)
    {
    }
    template <typename Fn, std::size_t... I>
    static void dispatch(int k, Fn& f, std::index_sequence<I...>)
    {
        using P = void (*)(Fn&);
        static const P table[] = {&Wide::call<Fn, I>...};
        table[k](f);
    }
    template <typename Fn>
    static void with(int k, Fn f)
    {
        dispatch(k, f, std::make_index_sequence<kCount>{});
    }
    static void make(Slot<V>& s, int, std::false_type) { s.make(); }
    static void make(Slot<V>& s, int r, std::true_type) { s.make(&res(r)); }
    static void check_res(const V&, int, std::false_type) {}
    static void check_res(const V& v, int r, std::true_type)
    {
        MC_CHECK(v.get_memory_resource() == &res(r), "memory resource is %d, expected %d", res_id(v.get_memory_resource()), r);
    }
    struct Model
    {
        int k = -1, seed = 0, res = 0;
    };
    static void check(Slot<V>& s, const Model& m, const char* who)
    {
        MC_CHECK(s->has_value() == (m.k >= 0), "%s: has_value() is %d", who, s->has_value());
        MC_CHECK(s->type_size() == (m.k >= 0 ? kSizes[m.k] : 0U), "%s: type size is %zu, expected %zu", who, s->type_size(), m.k >= 0 ? kSizes[m.k] : 0U);
        for (int d = -1; d <= 1; d++)
        {
            const int k = m.k + d;
            if (m.k < 0 || k < 0 || k >= count())
                continue;
            with(k, [&](auto* t) {
                using T       = std::remove_pointer_t<decltype(t)>;
                T* const p    = cetl::get_if<T>(&*s);
                MC_CHECK((p != nullptr) == (d == 0), "%s: holds %zu bytes; access as %zu bytes %s", who, kSizes[m.k], sizeof(T), p != nullptr ? "succeeds" : "fails");
                if (p == nullptr)
                    return;
                MC_CHECK(cetl::get_if<const T>(&static_cast<const V&>(*s)) == p, "%s: constant access reaches another object", who);
                MC_CHECK(p->is(m.seed), "%s: the value of %zu bytes is damaged", who, sizeof(T));
                MC_CHECK(s->type_id() == cetl::type_id_value<T>, "%s: wrong type identity", who);
                const char* const c      = reinterpret_cast<const char*>(p);
                const char* const self   = reinterpret_cast<const char*>(&*s);
                const bool        inside = c >= self && c + sizeof(T) <= self + sizeof(V);
                MC_CHECK(inside == (sizeof(T) <= F), "%s: %zu bytes are stored %s (footprint %zu)", who, sizeof(T), inside ? "inside" : "outside", F);
                if (!inside)
                {
                    const Block* b = containing_block(c);
                    MC_CHECK(b != nullptr && b->p == c && b->size >= sizeof(T) && b->res == m.res, "%s: the block of the value does not suit it", who);
                }
            });
        }
        check_res(*s, m.res, IsPmr{});
    }
    static std::size_t blocks(const Model& m) { return (m.k >= 0 && kSizes[m.k] > F) ? 1U : 0U; }

    static void copy_assign(Slot<V>& a, Slot<V>& b, std::true_type) { *a = static_cast<const V&>(*b); }
    static void copy_assign(Slot<V>&, Slot<V>&, std::false_type) {}
    static void move_assign(Slot<V>& a, Slot<V>& b, std::true_type) { *a = std::move(*b); }
    static void move_assign(Slot<V>&, Slot<V>&, std::false_type) {}
    static void swap(Slot<V>& a, Slot<V>& b, std::true_type) { a->swap(*b); }
    static void swap(Slot<V>&, Slot<V>&, std::false_type) {}
    static void copy_construct(Slot<V>& a, Slot<V>& b, std::true_type) { a.make(static_cast<const V&>(*b)); }
    static void copy_construct(Slot<V>&, Slot<V>&, std::false_type) {}
    static void move_construct(Slot<V>& a, Slot<V>& b, std::true_type) { a.make(std::move(*b)); }
    static void move_construct(Slot<V>&, Slot<V>&, std::false_type) {}

    static void run()
    {
        using C = std::integral_constant<bool, Copyable>;
        using M = std::integral_constant<bool, Movable>;
        Slot<V> a, b;
        Model   ma, mb;
        ma.res = 0;
        mb.res = Pmr ? 1 : 0;
        make(a, 0, IsPmr{});
        make(b, 1, IsPmr{});
        const int n = count();
        ma.k        = static_cast<int>(choose(static_cast<unsigned>(n) + 1U)) - 1;
        mb.k        = static_cast<int>(choose(static_cast<unsigned>(n) + 1U)) - 1;
        ma.seed     = 1;
        mb.seed     = 2;
        if (ma.k >= 0)
            with(ma.k, [&](auto* t) { a->template emplace<std::remove_pointer_t<decltype(t)>>(1); });
        if (mb.k >= 0)
            with(mb.k, [&](auto* t) { b->template emplace<std::remove_pointer_t<decltype(t)>>(2); });
        const int op = static_cast<int>(choose(7));
        static const char* const ops[] = {"copy assignment", "move assignment", "swap", "copy construction", "move construction", "emplacing", "reset"};
        note("%s of %zu bytes over %zu bytes", ops[op], mb.k >= 0 ? kSizes[mb.k] : 0U, ma.k >= 0 ? kSizes[ma.k] : 0U);
        switch (op)
        {
        case 0:
            if (!Copyable)
                return;
            copy_assign(a, b, C{});
            ma = mb;
            break;
        case 1:
            if (!Movable)
                return;
            move_assign(a, b, M{});
            ma   = mb;
            mb.k = -1;
            break;
        case 2:
            if (!Copyable && !Movable)
                return;
            swap(a, b, std::integral_constant<bool, Copyable || Movable>{});
            std::swap(ma, mb);
            break;
        case 3:
            if (!Copyable)
                return;
            copy_construct(a, b, C{});
            ma = mb;
            break;
        case 4:
            if (!Movable)
                return;
            move_construct(a, b, M{});
            ma   = mb;
            mb.k = -1;
            break;
        case 5:
            if (mb.k < 0)
                return;
            with(mb.k, [&](auto* t) { a->template emplace<std::remove_pointer_t<decltype(t)>>(3); });
            ma.k    = mb.k;
            ma.seed = 3;
            break;
        default:
            a->reset();
            ma.k = -1;
            break;
        }
        transition();
        check(a, ma, "first");
        check(b, mb, "second");
        MC_CHECK(live_blocks() == blocks(ma) + blocks(mb), "%zu blocks held for %zu values", live_blocks(), blocks(ma) + blocks(mb));
        Hasher h;
        h.u64(static_cast<std::uint64_t>(ma.k + 1));
        h.u64(static_cast<std::uint64_t>(mb.k + 1));
        h.u64(static_cast<std::uint64_t>(ma.seed * 4 + mb.seed));
        h.u64(static_cast<std::uint64_t>(op));
        outcome(h.key());
    }
};
}  // namespace wide
#endif
