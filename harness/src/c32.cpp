// C32: O(1)-heap memory resource over a recorded heap.
#include <cetl/pmr/o1heap_memory_resource_delegate.hpp>  // on its own

#define MC_MAIN
#include "../resource.hpp"

#include <cstddef>
#include <vector>

using namespace mc;
namespace
{
using Delegate                = cetl::pmr::UnsynchronizedO1HeapMemoryResourceDelegate;
constexpr std::size_t kLoose  = 320;
constexpr std::size_t kStored = 257;
using Storage                 = cetl::pmr::O1HeapAlignedStorage<kStored>;

struct Call
{
    char        what;  // a allocate, f free
    int         heap;
    std::size_t amount;
    void*       p;
};
struct Heap
{
    void*       base = nullptr;
    std::size_t size = 0;
};
struct Log
{
    Heap              heaps[3];
    int               count = 0;
    std::vector<Call> calls;
    bool              live[3][8];
};
Log lg;
int which(const O1HeapInstance* h)
{
    for (int i = 0; i < lg.count; i++)
        if (lg.heaps[i].base == static_cast<const void*>(h))
            return i;
    fail("a call with a heap that was never made");
}
}  // namespace
extern "C" {
O1HeapInstance* o1heapInit(void* const base, const size_t size)
{
    if (base == nullptr || reinterpret_cast<std::uintptr_t>(base) % O1HEAP_ALIGNMENT != 0 || size < 256)
        return nullptr;
    MC_CHECK(lg.count < 3, "too many heaps made");
    lg.heaps[lg.count++] = Heap{base, size};
    return static_cast<O1HeapInstance*>(base);
}
void* o1heapAllocate(O1HeapInstance* const handle, const size_t amount)
{
    const int h = which(handle);
    void*     p = nullptr;
    if (amount > 0 && amount <= 32 && !fault("heap refuses"))
        for (int i = 0; i < 6 && p == nullptr; i++)
            if (!lg.live[h][i])
            {
                lg.live[h][i] = true;
                p             = static_cast<char*>(lg.heaps[h].base) + 32 * (i + 1);
            }
    lg.calls.push_back(Call{'a', h, amount, p});
    return p;
}
void o1heapFree(O1HeapInstance* const handle, void* const pointer)
{
    const int h = which(handle);
    if (pointer != nullptr)
    {
        const std::ptrdiff_t d = static_cast<char*>(pointer) - static_cast<char*>(lg.heaps[h].base);
        MC_CHECK(d >= 32 && d < 32 * 7 && d % 32 == 0 && lg.live[h][d / 32 - 1], "block given back to a heap that did not hand it out, or twice");
        lg.live[h][d / 32 - 1] = false;
    }
    lg.calls.push_back(Call{'f', h, 0, pointer});
}
bool              o1heapDoInvariantsHold(const O1HeapInstance* const handle) { return which(handle) >= 0; }
O1HeapDiagnostics o1heapGetDiagnostics(const O1HeapInstance* const handle)
{
    O1HeapDiagnostics d{};
    d.capacity = lg.heaps[which(handle)].size;
    return d;
}
}
namespace
{
struct Block
{
    void*       p;
    int         heap;
    std::size_t size, align;
};
void histories()
{
    lg = Log{};
    std::memset(lg.live, 0, sizeof lg.live);
    alignas(64) static unsigned char loose[kLoose];
    static Storage                   stored;
    Delegate                         a{loose, kLoose};
    MC_CHECK(lg.count == 1 && lg.heaps[0].base == loose && lg.heaps[0].size == kLoose, "the heap is not made on the buffer given");
    Delegate b{stored};
    MC_CHECK(lg.count == 2 && lg.heaps[1].size == kStored, "the heap is not made on the storage given");
    MC_CHECK(lg.heaps[1].base >= static_cast<void*>(&stored) && static_cast<unsigned char*>(lg.heaps[1].base) + kStored <= reinterpret_cast<unsigned char*>(&stored + 1), "the heap exceeds the storage");
    Delegate* const    d[2] = {&a, &b};
    std::vector<Block> held;
    for (int n = 0; n <= ex().depth; n++)
    {
        MC_CHECK(a.max_size() == kLoose && b.max_size() == kStored, "maximum sizes %zu and %zu", a.max_size(), b.max_size());
        Hasher k;
        for (auto& x : held)
        {
            k.u64(static_cast<std::uint64_t>(static_cast<char*>(x.p) - static_cast<char*>(lg.heaps[x.heap].base)));
            k.u64(x.heap * 1000 + x.size);
            k.u64(x.align);
        }
        k.u64(ex().faults_left);
        if (!boundary(k.key(), ex().depth - n) || n == ex().depth)
            return;
        lg.calls.clear();
        const std::size_t op = choose(2 + held.size());
        if (op < 2)
        {
            static const std::size_t sizes[] = {1, 8, 32, 33, 0};
            const int                al      = static_cast<int>(choose(5));  // 33 is more than the heap has
            const std::size_t        size    = sizes[al];
            const std::size_t        align   = al == 1 ? 1 : al == 2 ? 256 : alignof(std::max_align_t);
            note("allocate(%zu, %zu) from %zu", size, align, op);
            void*     p   = reinterpret_cast<void*>(1);
            const Out out = guarded([&] { p = al == 0 ? d[op]->allocate(size) : d[op]->allocate(size, align); });
            if (size > 0 || !lg.calls.empty())
            {
                MC_CHECK(lg.calls.size() == 1 && lg.calls[0].what == 'a', "%zu heap calls for one request", lg.calls.size());
                MC_CHECK(lg.calls[0].heap == static_cast<int>(op), "the request went to another heap");
                MC_CHECK(lg.calls[0].amount == size, "%zu bytes were requested of the heap instead of %zu", lg.calls[0].amount, size);
            }
            void* const got = lg.calls.empty() ? nullptr : lg.calls[0].p;
#if defined(__cpp_exceptions)
            MC_CHECK(out == (got != nullptr ? Out::ok : Out::alloc), "the request ended with %s", name(out));
            MC_CHECK(got == nullptr || p == got, "another block than the one of the heap");
#else
            MC_CHECK(out == Out::ok && p == got, "another block than the one of the heap");
#endif
            if (got != nullptr)
                held.push_back(Block{got, static_cast<int>(op), size, align});
        }
        else
        {
            const Block x = held[op - 2];
            held.erase(held.begin() + static_cast<long>(op - 2));
            note("deallocate block %zu of %d", op - 2, x.heap);
            const Out out = guarded([&] {
                if (x.align == alignof(std::max_align_t))
                    d[x.heap]->deallocate(x.p, x.size);
                else
                    d[x.heap]->deallocate(x.p, x.size, x.align);
            });
            MC_CHECK(out == Out::ok && lg.calls.size() == 1 && lg.calls[0].what == 'f' && lg.calls[0].heap == x.heap && lg.calls[0].p == x.p, "the block was not given back to its heap");
        }
        transition();
    }
}
template <std::size_t N>
void storage()
{
    using S = cetl::pmr::O1HeapAlignedStorage<N>;
    lg      = Log{};
    static S s[2];
    constexpr std::size_t bytes = S::size_bytes, align = S::alignment;
    note("storage of %zu", N);
    MC_CHECK(bytes == N && align == O1HEAP_ALIGNMENT, "stated size %zu, alignment %zu", bytes, align);
    MC_CHECK(alignof(S) >= O1HEAP_ALIGNMENT, "alignment %zu", alignof(S));
    MC_CHECK(sizeof(s[0].storage) >= N && sizeof(S) < N + 2 * O1HEAP_ALIGNMENT, "%zu bytes reserved for %zu", sizeof(S), N);
    for (auto& x : s)
    {
        MC_CHECK(reinterpret_cast<std::uintptr_t>(&x.storage) % O1HEAP_ALIGNMENT == 0, "misaligned storage");
        Delegate d{x};
        MC_CHECK(d.max_size() == N && lg.heaps[lg.count - 1].size == N && lg.heaps[lg.count - 1].base == static_cast<void*>(&x.storage), "the heap has another storage");
    }
    Hasher h;
    h.u64(N);
    boundary(h.key(), 0);
}
void storages()
{
    switch (choose(6))
    {
    case 0: storage<256>(); break;
    case 1: storage<257>(); break;
    case 2: storage<1000>(); break;
    case 3: storage<1024>(); break;
    case 4: storage<4095>(); break;
    default: storage<65536>(); break;
    }
}
void traits()
{
    lg = Log{};
    MC_CHECK(!std::is_copy_constructible<Delegate>::value && !std::is_copy_assignable<Delegate>::value && !std::is_move_assignable<Delegate>::value, "the resource can be copied");
#if defined(CETL_ENABLE_DEBUG_ASSERT) && CETL_ENABLE_DEBUG_ASSERT
    const int k = static_cast<int>(choose(3));
    alignas(64) static unsigned char small[512];
    MC_CHECK(expect_abort([&] {
                 if (k == 0)
                     Delegate d(nullptr, 0);
                 else if (k == 1)
                     Delegate d(small, 16);
                 else
                     Delegate d(small + 1, 400);
             }),
             "a heap that could not be made went unnoticed (%d)", k);
#endif
    Hasher h;
    h.u64(1);
    boundary(h.key(), 0);
}
MC_SCENARIO("histories", 6, 2, 8, 3, &histories);
MC_SCENARIO("storages", 1, 0, 1, 0, &storages);
MC_SCENARIO("traits", 1, 0, 1, 0, &traits);
}  // namespace
