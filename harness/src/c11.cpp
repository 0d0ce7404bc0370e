// C11: a function wrapper calls exactly the callable it holds.
#define MC_MAIN
#include "../resource.hpp"

#include <cetl/pmr/function.hpp>

#include <string>

using namespace mc;
namespace
{
/// Counts what it was given; Tag and size vary.
template <unsigned P, int Tag>
struct Counter
{
    Elem<P, Tag> state;
    explicit Counter(int v) : state(v) {}
    int operator()(int delta, int& who)
    {
        (void) state.get();
        who = Tag;
        state.v += delta;
        return state.v;
    }
};
/// A plain function: its state is the number it adds.
int plain(int delta, int& who)
{
    who = 9;
    return 5 + delta * 0;
}

constexpr int kEmpty = -1, kLost = -2, kPlain = 3;
struct Model
{
    int t   = kEmpty;
    int v   = 0;
    int res = 0;
};
struct Cfg
{
    int  kinds;
    int  vals;
    bool recreate;
};

template <std::size_t F, bool Pmr, unsigned P>
class World
{
public:
    using Fn = cetl::pmr::function<int(int, int&), F, std::conditional_t<Pmr, cetl::pmr::memory_resource, void>>;
    using is_pmr = std::integral_constant<bool, Pmr>;
    using C0     = Counter<P | kCopy | kSelf, 1>;
    using C1     = Counter<P | kCopy | kSelf | kBig, 2>;
    struct C2  // two objects in one callable
    {
        Elem<P | kCopy, 3> a, b;
        explicit C2(int v) : a(v), b(v) {}
        int operator()(int delta, int& who)
        {
            MC_CHECK(a.get() == b.get(), "the two halves of a callable differ");
            who = 3;
            a.v += delta;
            b.v += delta;
            return a.v;
        }
    };

    explicit World(const Cfg& c) : cfg(c)
    {
        for (int i = 0; i < 2; i++)
            make_empty(i, i, is_pmr{});
    }
    Key key()
    {
        StateHash h;
        for (auto& x : m)
        {
            h.h.u64(static_cast<std::uint64_t>(x.t + 10));
            h.h.u64(static_cast<std::uint64_t>(x.v));
            h.h.u64(static_cast<std::uint64_t>(x.res));
        }
        h.h.u64(static_cast<std::uint64_t>(ex().faults_left));
        return h.finish();
    }
    void check_all()
    {
        for (int i = 0; i < 2; i++)
        {
            const Fn& f = *s[i];
            MC_CHECK(static_cast<bool>(f) == (m[i].t >= 0), "wrapper %c converts to %d", 'a' + i, static_cast<bool>(f));
            MC_CHECK(f.valueless_by_exception() == (m[i].t == kLost), "wrapper %c: valueless_by_exception() is %d", 'a' + i, f.valueless_by_exception());
            check_res(i, is_pmr{});
            call(i, 0);
        }
    }
    void check_lifetimes()
    {
        std::size_t n = 0, lost = 0;
        for (auto& x : m)
        {
            n += (x.t == 0 || x.t == 1) ? 1U : (x.t == 2 ? 2U : 0U);
            lost += (x.t == kLost) ? 1U : 0U;
        }
        MC_CHECK(live_objects() == n, "%zu callables alive, %zu expected", live_objects(), n);
        std::size_t max = lost;
        for (auto& x : m)
            max += (x.t >= 0 && F == 0) ? 1U : 0U;
        MC_CHECK(F > 16 || live_blocks() <= 2, "%zu blocks held", live_blocks());
        MC_CHECK(!(F == 0) || live_blocks() <= max, "%zu blocks held for fewer callables", live_blocks());
        if (F == 0)
            for (int r = 0; r < 3; r++)
            {
                std::size_t need = 0;
                for (auto& x : m)
                    need += (x.t >= 0 && x.res == r) ? 1U : 0U;
                MC_CHECK(live_blocks(r) >= need, "a callable is not stored in the resource of its wrapper");
            }
    }
    bool step()
    {
        const int t = static_cast<int>(choose(2)), o = 1 - t;
        switch (choose(9))
        {
        case 0: return op_assign(t);
        case 1:
            if (choose(2))
            {
                note("%c = nullptr", 'a' + t);
                *s[t] = nullptr;
            }
            else
            {
                note("%c.reset()", 'a' + t);
                s[t]->reset();
            }
            m[t].t = kEmpty;
            m[t].v = 0;
            return true;
        case 2: return op_reset_res(t, is_pmr{});
        case 3: return op_copy(t, choose(2) ? t : o);
        case 4: return op_move(t, choose(2) ? t : o);
        case 5: return t == 0 && op_swap(0, static_cast<int>(choose(2)));
        case 6:
        {
            if (m[t].t < 0)
                return false;
            const int d = 1 - 2 * static_cast<int>(choose(2));
            if (m[t].v + d < 0 || m[t].v + d > cfg.vals)
                return false;
            note("%c(%d)", 'a' + t, d);
            call(t, d);
            return true;
        }
        case 7: return cfg.recreate && op_recreate(t);
        default: return cfg.recreate && op_construct_from(t, o);
        }
    }

private:
    void make_empty(int i, int, std::false_type)
    {
        s[i].make();
        m[i] = Model{};
    }
    void make_empty(int i, int r, std::true_type)
    {
        s[i].make(&res(r));
        m[i]     = Model{};
        m[i].res = r;
    }
    void check_res(int, std::false_type) {}
    void check_res(int i, std::true_type)
    {
        MC_CHECK(s[i]->get_memory_resource() == &res(m[i].res), "wrapper %c: memory resource is %d, expected %d", 'a' + i, res_id(s[i]->get_memory_resource()), m[i].res);
    }
    void call(int i, int d)
    {
        const Fn& f   = *s[i];
        int       who = -5;
        if (m[i].t < 0)
        {
#if defined(__cpp_exceptions)
            bool bad = false;
            try
            {
                (void) f(d, who);
            } catch (const std::bad_function_call&)
            {
                bad = true;
            }
#else
            const bool bad = expect_abort([&] { (void) f(d, who); });
#endif
            MC_CHECK(bad, "calling the empty wrapper %c does not fail", 'a' + i);
            return;
        }
        const int r = f(d, who);
        if (m[i].t == kPlain)
        {
            MC_CHECK(who == 9 && r == 5, "wrapper %c does not call the plain function", 'a' + i);
            return;
        }
        m[i].v += d;
        MC_CHECK(who == m[i].t + 1, "wrapper %c calls callable %d, expected %d", 'a' + i, who - 1, m[i].t);
        MC_CHECK(r == m[i].v, "wrapper %c returns %d, expected %d: the state of its callable is wrong", 'a' + i, r, m[i].v);
    }
    void begin_op() { used0 = ex().faults_used; }
    bool faulted() const { return ex().faults_used > used0; }
    bool quiet_failure(int i)
    {
#if defined(__cpp_exceptions)
        (void) i;
        return false;
#else
        return faulted() && s[i]->valueless_by_exception();
#endif
    }
    bool op_assign(int t)
    {
        const int  k  = static_cast<int>(choose(static_cast<unsigned>(cfg.kinds)));
        const int  v  = k == kPlain ? 0 : static_cast<int>(choose(static_cast<unsigned>(cfg.vals + 1)));
        const bool rv = choose(2) == 1;
        note("%c = %s callable %d with state %d", 'a' + t, rv ? "rvalue" : "lvalue", k, v);
        switch (k)
        {
        case 0: assign<C0>(t, k, v, rv); break;
        case 1: assign<C1>(t, k, v, rv); break;
        case 2: assign<C2>(t, k, v, rv); break;
        default:
            begin_op();
            failed_or(guarded([&] { rv ? *s[t] = plain : *s[t] = &plain; }), t, k, 0);
        }
        return true;
    }
    template <typename C>
    void assign(int t, int k, int v, bool rv)
    {
        C   c(v);
        Out out;
        begin_op();
        if (rv)
            out = guarded([&] { MC_CHECK(&(*s[t] = std::move(c)) == &*s[t], "assignment returns another object"); });
        else
        {
            out   = guarded([&] { MC_CHECK(&(*s[t] = static_cast<const C&>(c)) == &*s[t], "assignment returns another object"); });
            int w = 0;
            MC_CHECK(c(0, w) == v, "assignment changes the callable it copies");
        }
        failed_or(out, t, k, v);
    }
    void failed_or(Out out, int t, int k, int v)
    {
        if (out == Out::ok && !quiet_failure(t))
        {
            m[t].t = k;
            m[t].v = v;
            return;
        }
        MC_CHECK(faulted(), "assignment fails with %s without a reason", name(out));
        MC_CHECK(out != Out::other && out != Out::length, "assignment fails with %s", name(out));
        after_failure(t);
    }
    /// Unchanged, or empty and reported as such.
    void after_failure(int t)
    {
        if (!static_cast<bool>(*s[t]))
        {
            if (m[t].t >= 0 || s[t]->valueless_by_exception())
            {
                MC_CHECK(s[t]->valueless_by_exception(), "wrapper %c lost its callable without reporting it", 'a' + t);
                m[t].t = kLost;
            }
            m[t].v = 0;
        }
        else
            MC_CHECK(m[t].t >= 0, "wrapper %c has a callable after a failed operation", 'a' + t);
    }
    bool op_reset_res(int, std::false_type) { return false; }
    bool op_reset_res(int t, std::true_type)
    {
        const int r = static_cast<int>(choose(3));
        note("%c.reset(resource %d)", 'a' + t, r);
        s[t]->reset(&res(r));
        m[t]     = Model{};
        m[t].res = r;
        return true;
    }
    void resync_flag(int i)
    {
        MC_CHECK(!static_cast<bool>(*s[i]), "wrapper %c has a callable although it was given none", 'a' + i);
        m[i].t = s[i]->valueless_by_exception() ? kLost : kEmpty;
        m[i].v = 0;
    }
    void resync_res(int, int, int, std::false_type) {}
    void resync_res(int i, int a, int b, std::true_type)
    {
        const int r = res_id(s[i]->get_memory_resource());
        MC_CHECK(r == a || r == b, "wrapper %c has resource %d after a failure", 'a' + i, r);
        m[i].res = r;
    }
    bool op_copy(int t, int f)
    {
        note("%c = %c", 'a' + t, 'a' + f);
        begin_op();
        const Out out = guarded([&] { *s[t] = static_cast<const Fn&>(*s[f]); });
        copied(out, t, f);
        return true;
    }
    void copied(Out out, int t, int f)
    {
        if (out == Out::ok && !quiet_failure(t))
        {
            if (t == f)
                return;
            m[t] = m[f];
            if (m[f].t < 0)
                resync_flag(t);
            return;
        }
        MC_CHECK(faulted(), "copying fails with %s without a reason", name(out));
        MC_CHECK(out != Out::other && out != Out::length, "copying fails with %s", name(out));
        const int old = m[t].res;
        after_failure(t);
        resync_res(t, old, m[f].res, is_pmr{});
    }
    void moved(int t, int f)
    {
        if (t == f)
            return;
        m[t] = m[f];
        if (m[f].t < 0)
            resync_flag(t);
        resync_flag(f);
    }
    bool op_move(int t, int f)
    {
        note("%c = move(%c)", 'a' + t, 'a' + f);
        begin_op();
        const Out out = guarded([&] { *s[t] = std::move(*s[f]); }, false);
        MC_CHECK(out == Out::ok, "moving fails with %s", name(out));
        moved(t, f);
        return true;
    }
    bool op_swap(int t, int f)
    {
        const bool free_form = choose(2) == 1;
        note("%s(%c, %c)", free_form ? "std::swap" : "swap", 'a' + t, 'a' + f);
        const Out out = guarded(
            [&] {
                if (free_form)
                    std::swap(*s[t], *s[f]);
                else
                    s[t]->swap(*s[f]);
            },
            false);
        MC_CHECK(out == Out::ok, "swapping fails with %s", name(out));
        if (t == f)
            return true;
        std::swap(m[t], m[f]);
        for (int i : {t, f})
            if (m[i].t < 0)
                resync_flag(i);
        return true;
    }
    bool op_recreate(int t)
    {
        const int r = Pmr ? static_cast<int>(choose(2)) : 0;
        const int k = static_cast<int>(choose(static_cast<unsigned>(cfg.kinds)));
        note("new %c with callable %d, resource %d", 'a' + t, k, r);
        s[t].kill();
        m[t] = Model{};
        begin_op();
        Out out = Out::other;
        switch (k)
        {
        case 0: out = construct(t, r, C0(1)); break;
        case 1: out = construct(t, r, C1(1)); break;
        case 2: out = construct(t, r, C2(1)); break;
        default: out = construct(t, r, &plain);
        }
        return constructed(out, t, r, k);
    }
    bool constructed(Out out, int t, int r, int k)
    {
        if (out == Out::ok)
        {
            m[t].t   = quiet_failure(t) ? kLost : k;
            m[t].v   = (m[t].t >= 0 && k != kPlain) ? 1 : 0;
            m[t].res = r;
            return true;
        }
        MC_CHECK(faulted(), "construction fails with %s without a reason", name(out));
        check_lifetimes();
        ArmFaults off(false);
        make_empty(t, r, is_pmr{});
        return true;
    }
    template <typename C>
    Out construct(int t, int r, C&& c)
    {
        return guarded([&] { construct_form(t, r, std::forward<C>(c), is_pmr{}); });
    }
    template <typename C>
    void construct_form(int t, int r, C&& c, std::true_type)
    {
        s[t].make(&res(r), std::forward<C>(c));
    }
    template <typename C>
    void construct_form(int t, int, C&& c, std::false_type)
    {
        s[t].make(std::forward<C>(c));
    }
    bool op_construct_from(int t, int o)
    {
        const bool mv = choose(2) == 1;
        note("new %c from %s%c", 'a' + t, mv ? "moved " : "", 'a' + o);
        s[t].kill();
        m[t] = Model{};
        begin_op();
        const Out out = mv ? guarded([&] { s[t].make(std::move(*s[o])); }, false) : guarded([&] { s[t].make(static_cast<const Fn&>(*s[o])); });
        if (out != Out::ok)
        {
            MC_CHECK(faulted() && !mv, "construction fails with %s without a reason", name(out));
            check_lifetimes();
            ArmFaults off(false);
            make_empty(t, 0, is_pmr{});
            return true;
        }
        if (mv)
            moved(t, o);
        else if (quiet_failure(t))
        {
            m[t].t   = kLost;
            m[t].res = m[o].res;
        }
        else
            copied(out, t, o);
        return true;
    }

    Cfg      cfg;
    Slot<Fn> s[2];
    Model    m[2];
    int      used0 = 0;
};
template <std::size_t F, bool Pmr, unsigned P>
void run_world(const Cfg& cfg)
{
    World<F, Pmr, P> w(cfg);
    const int        depth = ex().depth;
    for (int d = 0;; d++)
    {
        const Key k = w.key();
        if (unseen(k))
            w.check_all();
        if (!boundary(k, depth - d) || d == depth)
            return;
        if (!w.step())
            return;
        transition();
        w.check_lifetimes();
    }
}

// ------------------------------------------------------------------- arguments and results
struct Num
{
    int n;
    operator int() const { return n; }
};
struct Base
{
    virtual ~Base()         = default;
    virtual int id() const  = 0;
};
struct Left : Base
{
    int id() const override { return 1; }
};
struct Right : Base
{
    int id() const override { return 2; }
};
/// All kinds of signatures over all small argument values.
void signatures()
{
    const int a = range(-1, 2), b = range(-1, 2);
    const int form = range(0, 7);
    note("signature %d with %d, %d", form, a, b);
    cetl::pmr::function<int(int, int), 64>                     sub = [](int x, int y) { return x * 10 - y; };
    cetl::pmr::function<int&(int&, int), 64>                   ref = [](int& x, int y) -> int& { x += y; return x; };
    cetl::pmr::function<void(int*), 64>                        out = [b](int* p) { *p = b; };
    cetl::pmr::function<std::string(const std::string&, std::string), 128> str = [](const std::string& x, std::string y) { return x + "|" + y; };
    cetl::pmr::function<long(short), 64>                       conv = [](int x) { return static_cast<short>(x + 1); };
    cetl::pmr::function<Num(), 64>                             none = [a] { return Num{a}; };
    cetl::pmr::function<int(const Base&), 64>                  virt = [](const Base& x) { return x.id(); };
    cetl::pmr::function<bool(int, int, int, int), 64>          many = [](int w, int x, int y, int z) { return w * 1000 + x * 100 + y * 10 + z == 4321; };
    int x = a;
    switch (form)
    {
    case 0: MC_CHECK(sub(a, b) == a * 10 - b, "arguments reach the callable wrongly"); break;
    case 1:
    {
        int& r = ref(x, b);
        MC_CHECK(&r == &x && x == a + b, "references are not passed through");
        break;
    }
    case 2:
        out(&x);
        MC_CHECK(x == b, "pointer argument is not passed through");
        break;
    case 3:
    {
        const std::string l(static_cast<std::size_t>(a + 1), 'l');
        std::string       r(static_cast<std::size_t>(b + 1), 'r');
        MC_CHECK(str(l, r) == l + "|" + r && r == std::string(static_cast<std::size_t>(b + 1), 'r'), "string arguments are changed");
        break;
    }
    case 4: MC_CHECK(conv(static_cast<short>(a)) == a + 1, "converted argument or result is wrong"); break;
    case 5: MC_CHECK(none().n == a, "result is wrong"); break;
    case 6: MC_CHECK((a > b ? virt(Left{}) : virt(Right{})) == (a > b ? 1 : 2), "polymorphic argument is sliced"); break;
    default: MC_CHECK(many(4, 3, 2, 1) && !many(1, 2, 3, 4), "order of arguments is changed");
    }
    Hasher h;
    h.u64(static_cast<std::uint64_t>((a + 5) * 100 + (b + 5) * 10 + form));
    const Key k = h.key();
    boundary(k, 0);
    transition();
}

// ------------------------------------------------------------------- callables of many sizes
template <std::size_t N>
struct Large
{
    unsigned char b[N];
    explicit Large(int seed)
    {
        for (std::size_t i = 0; i < N; i++)
            b[i] = static_cast<unsigned char>(static_cast<std::size_t>(seed) * 41 + i * 7 + (i >> 8));
    }
    /// Every byte counts; the first one is changed by the call.
    long operator()(int delta)
    {
        long sum = static_cast<long>(N);
        for (std::size_t i = 0; i < N; i++)
            sum = (sum * 31 + b[i]) % 1000003;
        b[0] = static_cast<unsigned char>(b[0] + delta);
        return sum;
    }
};
constexpr std::size_t kSizes[] = {1, 8, 9, 16, 24, 40, 47, 48, 56, 100, 127, 128, 240, 255, 256, 257, 500, 1000, 1024, 4096, 65535, 65536, 70000};
constexpr int         kCount   = static_cast<int>(sizeof kSizes / sizeof kSizes[0]);
template <std::size_t F, bool Pmr>
struct Wide
{
    using Fn     = cetl::pmr::function<long(int), F, std::conditional_t<Pmr, cetl::pmr::memory_resource, void>>;
    using is_pmr = std::integral_constant<bool, Pmr>;
    template <std::size_t I>
    static constexpr bool fits()
    {
        return Pmr || kSizes[I] + 15 <= F;
    }
    struct Act
    {
        Slot<Fn>* s;
        Fn*       f;
        long*     want;
        int       seed, r;
    };
    template <std::size_t I, std::enable_if_t<fits<I>(), int> = 0>
    static bool act(Act& a)
    {
        using L = Large<kSizes[I]>;
        L x(a.seed);
        if (a.s != nullptr)
            make(*a.s, a.r, x, is_pmr{});
        else if (a.f != nullptr)
            *a.f = x;
        if (a.want != nullptr)
        {
            a.want[0] = x(1);
            a.want[1] = x(1);
        }
        return true;
    }
    template <std::size_t I, std::enable_if_t<!fits<I>(), int> = 0>
    static bool act(Act&)
    {
        return false;
    }
    template <typename L>
    static void make(Slot<Fn>& s, int r, const L& x, std::true_type)
    {
        s.make(&res(r), x);
    }
    template <typename L>
    static void make(Slot<Fn>& s, int, const L& x, std::false_type)
    {
        s.make(x);
    }
    template <std::size_t... I>
    static bool dispatch(int k, Act a, std::index_sequence<I...>)
    {
        using P                = bool (*)(Act&);
        static const P table[] = {&Wide::act<I>...};
        return table[k](a);
    }
    static bool with(int k, Act a) { return dispatch(k, a, std::make_index_sequence<kCount>{}); }
    static void check(Fn& f, int k, int seed, const char* who)
    {
        long want[2];
        with(k, Act{nullptr, nullptr, want, seed, 0});
        MC_CHECK(static_cast<bool>(f), "%s is empty", who);
        const long got = f(1), again = f(1);
        MC_CHECK(got == want[0], "%s: the callable of %zu bytes is damaged", who, kSizes[k]);
        MC_CHECK(again == want[1], "%s: the callable of %zu bytes does not keep its state", who, kSizes[k]);
    }
    static void run()
    {
        const int i = range(0, kCount - 1), j = range(0, kCount - 1), op = range(0, 5);
        static const char* const ops[] = {"copy assignment", "move assignment", "swap", "copy construction", "move construction", "assignment"};
        note("%s of a callable of %zu bytes over one of %zu bytes", ops[op], kSizes[j], kSizes[i]);
        Slot<Fn> a, b;
        if (!with(i, Act{&a, nullptr, nullptr, 1, 0}) || !with(j, Act{&b, nullptr, nullptr, 2, 1}))
            return;
        switch (op)
        {
        case 0: *a = static_cast<const Fn&>(*b); break;
        case 1: *a = std::move(*b); break;
        case 2: a->swap(*b); break;
        case 3:
            a.kill();
            a.make(static_cast<const Fn&>(*b));
            break;
        case 4:
            a.kill();
            a.make(std::move(*b));
            break;
        default: with(j, Act{nullptr, &*a, nullptr, 2, 0});
        }
        transition();
        check(*a, j, 2, "first");
        if (op == 1 || op == 4)
            MC_CHECK(!static_cast<bool>(*b), "a wrapper that was moved from is not empty");
        else if (op == 2)
            check(*b, i, 1, "second");
        else
            check(*b, j, 2, "second");
        Hasher h;
        h.u64(static_cast<std::uint64_t>((i * 100 + j) * 10 + op));
        outcome(h.key());
    }
};
/// What happens to the callable given: only an expiring one may be changed.
template <std::size_t F, bool Pmr>
struct Given
{
    using Fn     = cetl::pmr::function<int(int, int&), F, std::conditional_t<Pmr, cetl::pmr::memory_resource, void>>;
    using is_pmr = std::integral_constant<bool, Pmr>;
    template <typename C>
    static void make(Slot<Fn>& s, C&& c, std::true_type)
    {
        s.make(&res(0), std::forward<C>(c));
    }
    template <typename C>
    static void make(Slot<Fn>& s, C&& c, std::false_type)
    {
        s.make(std::forward<C>(c));
    }
    template <typename C>
    static void run_with()
    {
        const int form = range(0, 5), v = range(1, 2);
        note("%s %s callable %d", form < 3 ? "construction from" : "assignment of", form % 3 == 0 ? "a" : (form % 3 == 1 ? "a constant" : "an expiring"), v);
        Slot<Fn> f;
        C        old(7), c(v);
        const C& k = c;
        if (form >= 3)
            make(f, old, is_pmr{});
        switch (form)
        {
        case 0: make(f, c, is_pmr{}); break;
        case 1: make(f, k, is_pmr{}); break;
        case 2: make(f, std::move(c), is_pmr{}); break;
        case 3: *f = c; break;
        case 4: *f = k; break;
        default: *f = std::move(c);
        }
        transition();
        int who = 0;
        if (form % 3 != 2)
        {
            MC_CHECK(c.state.get() == v, "the callable given was changed");
            MC_CHECK((*f)(1, who) == v + 1, "the wrapper calls something else");
            MC_CHECK(c.state.get() == v, "the wrapper shares the callable given");
        }
        else
        {
            MC_CHECK(c.state.get() == kMovedFrom, "an expiring callable was copied");
            MC_CHECK((*f)(1, who) == v + 1, "the wrapper calls something else");
        }
        MC_CHECK((*f)(1, who) == v + 2, "the wrapper does not keep the state of its callable");
        MC_CHECK(form < 3 || old.state.get() == 7, "the first callable was changed");
        Hasher h;
        h.u64(static_cast<std::uint64_t>(form * 10 + v));
        outcome(h.key());
    }
    static void run()
    {
        if (choose(2))
            run_with<Counter<kCopy | kSelf, 1>>();
        else
            run_with<Counter<kCopy | kSelf | kBig, 2>>();
    }
};

constexpr unsigned kThrowing = kThrowDef * 0 + kThrowCopy + kThrowMove;
//                   kinds vals recreate
Cfg all   = {4, 1, true};
Cfg calls = {2, 2, false};
#define KIND(label, F, Pmr)                                                                              \
    MC_SCENARIO("plain/" label, 6, 0, 12, 0, [] { run_world<F, Pmr, 0>(all); });                         \
    MC_SCENARIO("calls/" label, 6, 0, 12, 0, [] { run_world<F, Pmr, 0>(calls); });                       \
    MC_SCENARIO("faults/" label, 4, 2, 6, 3, [] { run_world<F, Pmr, kThrowing>(all); });                 \
    MC_SCENARIO("faults-calls/" label, 4, 2, 6, 3, [] { run_world<F, Pmr, kThrowing>(calls); })
#if PART == 0
KIND("inside", 96, false);
MC_SCENARIO("signatures", 1, 0, 1, 0, [] { signatures(); });
#elif PART == 1
KIND("pmr", 0, true);
#elif PART == 2
KIND("mixed", 32, true);
#elif PART == 3
MC_SCENARIO("given/inside", 0, 0, 0, 0, (&Given<96, false>::run));
MC_SCENARIO("given/pmr", 0, 0, 0, 0, (&Given<0, true>::run));
MC_SCENARIO("given/mixed", 0, 0, 0, 0, (&Given<32, true>::run));
MC_SCENARIO("sizes/inside-64", 0, 0, 0, 0, (&Wide<64, false>::run));
MC_SCENARIO("sizes/inside-300", 0, 0, 0, 0, (&Wide<300, false>::run));
#else
MC_SCENARIO("sizes/inside-5000", 0, 0, 0, 0, (&Wide<5000, false>::run));
MC_SCENARIO("sizes/pmr", 0, 0, 0, 0, (&Wide<0, true>::run));
MC_SCENARIO("sizes/mixed", 0, 0, 0, 0, (&Wide<260, true>::run));
#endif
}  // namespace
