// Drives pools of variable-length arrays. The element/allocator pair is chosen by the history header.
#include "logres.hpp"
#include "toks.hpp"

#include "cetl/pf17/array_memory_resource.hpp"
#include "cetl/pf17/sys/memory_resource.hpp"
#include "cetl/variable_length_array.hpp"

#include <algorithm>
#include <array>
#include <functional>
#include <iterator>
#include <memory>

using namespace vh;

static constexpr long long BIG = 1000000;
static std::size_t         lim_in(long long v) { return v >= BIG ? SIZE_MAX : static_cast<std::size_t>(v); }
// counts next to the largest one there is are written as 2 * BIG - distance
static std::size_t count_in(long long v) { return v > BIG + BIG / 2 ? SIZE_MAX - static_cast<std::size_t>(2 * BIG - v) : static_cast<std::size_t>(v); }
static long long           big_out(std::size_t v) { return v >= BIG ? BIG : static_cast<long long>(v); }

// One process-wide refusal counter: the n-th allocation from now on fails.
struct Mem
{
    static constexpr int N = 4;
    std::array<LogRes, N> res;
    long        fail_in{0};
    bool        failed{false};
    std::size_t amax[N];
    bool        ok_next()
    {
        if (fail_in > 0 && --fail_in == 0)
        {
            failed = true;
            return false;
        }
        return true;
    }
};
static Mem* mem = nullptr;

// Resource used below the arrays: asks Mem whether to refuse.
class PoolRes : public cetl::pf17::pmr::memory_resource
{
public:
    Ledger      led;
    std::size_t limit{SIZE_MAX};

private:
    void* do_allocate(std::size_t n, std::size_t al) override
    {
        if (!mem->ok_next()) led.fail_in = 1;
        return led.allocate(n, al);
    }
    void        do_deallocate(void* p, std::size_t n, std::size_t al) override { led.deallocate(p, n, al); }
    bool        do_is_equal(const cetl::pf17::pmr::memory_resource& o) const noexcept override { return this == &o; }
    std::size_t do_max_size() const noexcept override { return limit; }
    void*       do_reallocate(void* p, std::size_t o, std::size_t n, std::size_t al) override
    {
        return led.reallocate(p, o, n, al);
    }
};
static std::array<PoolRes, 4>* pool = nullptr;  // index 0: default resource

// Plain ledger allocator with configurable propagation.
template <typename T, bool Pocma, bool Pocca, bool Aleq, bool Socc>
struct LAlloc
{
    using value_type                             = T;
    using propagate_on_container_move_assignment = std::integral_constant<bool, Pocma>;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, Pocca>;
    using propagate_on_container_swap            = std::false_type;
    using is_always_equal                        = std::integral_constant<bool, Aleq>;
    template <typename U>
    struct rebind
    {
        using other = LAlloc<U, Pocma, Pocca, Aleq, Socc>;
    };
    int id;
    explicit LAlloc(int i) noexcept
        : id(i)
    {
    }
    LAlloc(const LAlloc&) noexcept            = default;
    LAlloc& operator=(const LAlloc&) noexcept = default;
    template <typename U>
    LAlloc(const LAlloc<U, Pocma, Pocca, Aleq, Socc>& o) noexcept
        : id(o.id)
    {
    }
    T* allocate(std::size_t n)
    {
        return static_cast<T*>((*pool)[static_cast<std::size_t>(Aleq ? 1 : id)].allocate(n * sizeof(T), alignof(T)));
    }
    void deallocate(T* p, std::size_t n)
    {
        (*pool)[static_cast<std::size_t>(Aleq ? 1 : id)].deallocate(p, n * sizeof(T), alignof(T));
    }
    std::size_t max_size() const noexcept
    {
        const std::size_t l = (*pool)[static_cast<std::size_t>(id)].limit;
        return l == SIZE_MAX ? SIZE_MAX / sizeof(T) : l / sizeof(T);
    }
    LAlloc select_on_container_copy_construction() const { return LAlloc(Socc ? 3 : id); }
    bool operator==(const LAlloc& o) const noexcept { return Aleq || id == o.id; }
    bool operator!=(const LAlloc& o) const noexcept { return !(*this == o); }
};
// the same with an in-place growing protocol
template <typename T>
struct RAlloc
{
    using value_type = T;
    template <typename U>
    struct rebind
    {
        using other = RAlloc<U>;
    };
    int id;
    explicit RAlloc(int i) noexcept
        : id(i)
    {
    }
    template <typename U>
    RAlloc(const RAlloc<U>& o) noexcept
        : id(o.id)
    {
    }
    PoolRes& r() const { return (*pool)[static_cast<std::size_t>(id)]; }
    T*       allocate(std::size_t n) { return static_cast<T*>(r().allocate(n * sizeof(T), alignof(T))); }
    void     deallocate(T* p, std::size_t n) { r().deallocate(p, n * sizeof(T), alignof(T)); }
    T*       reallocate(T* p, std::size_t o, std::size_t n)
    {
        return static_cast<T*>(r().reallocate(p, o * sizeof(T), n * sizeof(T), alignof(T)));
    }
    std::size_t max_size() const noexcept { return r().limit == SIZE_MAX ? SIZE_MAX / sizeof(T) : r().limit / sizeof(T); }
    bool        operator==(const RAlloc& o) const noexcept { return id == o.id; }
    bool        operator!=(const RAlloc& o) const noexcept { return id != o.id; }
};

struct ABase
{
    static constexpr bool tight = false;
    static void           setup() {}
    static void           teardown() {}
};
template <bool Pocma, bool Pocca, bool Aleq, bool Socc = false>
struct AL : ABase
{
    template <typename T>
    using type = LAlloc<T, Pocma, Pocca, Aleq, Socc>;
    template <typename T>
    static type<T> make(int id)
    {
        return type<T>(id);
    }
    template <typename T>
    static int id(const type<T>& a)
    {
        return a.id;
    }
    static constexpr bool pocma = Pocma, pocca = Pocca, aleq = Aleq;
};
struct AR : ABase
{
    template <typename T>
    using type = RAlloc<T>;
    template <typename T>
    static type<T> make(int id)
    {
        return type<T>(id);
    }
    template <typename T>
    static int id(const type<T>& a)
    {
        return a.id;
    }
    static constexpr bool pocma = false, pocca = false, aleq = false;
};
struct AP : ABase  // polymorphic allocator; the default resource is allocator 3
{
    template <typename T>
    using type = cetl::pf17::pmr::polymorphic_allocator<T>;
    static cetl::pf17::pmr::memory_resource* res(int id) { return &(*pool)[static_cast<std::size_t>(id)]; }
    template <typename T>
    static type<T> make(int i)
    {
        return type<T>(res(i));
    }
    template <typename T>
    static int id(const type<T>& a)
    {
        for (int i = 0; i < 4; ++i)
            if (a.resource() == res(i)) return i;
        return -1;
    }
    static void           setup() { cetl::pf17::pmr::set_default_resource(res(3)); }
    static void           teardown() { cetl::pf17::pmr::set_default_resource(nullptr); }
    static constexpr bool pocma = false, pocca = false, aleq = false;
};
struct AB : ABase  // polymorphic allocator over a fixed buffer that falls back to the pool
{
    using Buf = cetl::pf17::pmr::UnsynchronizedArrayMemoryResource<96>;
    static std::array<std::unique_ptr<Buf>, 4>& bufs()
    {
        static std::array<std::unique_ptr<Buf>, 4> b;
        return b;
    }
    template <typename T>
    using type = cetl::pf17::pmr::polymorphic_allocator<T>;
    template <typename T>
    static type<T> make(int i)
    {
        return type<T>(bufs()[static_cast<std::size_t>(i)].get());
    }
    template <typename T>
    static int id(const type<T>& a)
    {
        for (int i = 0; i < 4; ++i)
            if (a.resource() == bufs()[static_cast<std::size_t>(i)].get()) return i;
        return -1;
    }
    static std::size_t& upmax()
    {
        static std::size_t n = 4096;
        return n;
    }
    static void setup()
    {
        for (std::size_t i = 0; i < 4; ++i) bufs()[i].reset(new Buf(&(*pool)[i], upmax()));
        cetl::pf17::pmr::set_default_resource(bufs()[3].get());
    }
    static void teardown()
    {
        cetl::pf17::pmr::set_default_resource(nullptr);
        for (std::size_t i = 0; i < 4; ++i)
        {
            // every buffer must be free again: the whole of it can be handed out without asking upstream
            void* q = bufs()[i]->allocate(96, 1);
            if (!(*pool)[i].led.live.empty()) die("buffer left in use after every array was destroyed");
            bufs()[i]->deallocate(q, 96, 1);
            bufs()[i].reset();
        }
    }
    static constexpr bool tight = true;
    static constexpr bool pocma = false, pocca = false, aleq = false;
};

template <typename T>
T mk(long long v)
{
    return T(static_cast<int>(v));
}
template <>
bool mk<bool>(long long v)
{
    return v != 0;
}

template <typename T>
struct Counted : std::false_type
{};
template <bool A, int P, bool C>
struct Counted<Tok<A, P, C>> : std::true_type
{};
template <>
struct Counted<MovTok> : std::true_type
{};

template <typename T, typename A>
struct Runner
{
    static constexpr bool bits     = std::is_same<T, bool>::value;
    static constexpr bool copyable = std::is_copy_constructible<T>::value;
    using Alloc                    = typename A::template type<T>;
    using Arr                      = cetl::VariableLengthArray<T, Alloc>;
    using ArrAlloc                 = typename Arr::allocator_type;
    using Elem                     = std::conditional_t<bits, unsigned char, T>;

    struct Slot
    {
        alignas(Arr) unsigned char mem[sizeof(Arr)];
        bool        on{false};
        Arr&        a() { return *reinterpret_cast<Arr*>(mem); }
        std::string last;
    };
    std::vector<Slot> sl;
    bool              agree{true};

    static ArrAlloc mka(int id) { return ArrAlloc(A::template make<Elem>(id)); }

    template <typename AA>
    static int idof(const AA& a)
    {
        return A::template id<Elem>(a);
    }

    // reads an array through every accessor and notes disagreement
    std::vector<int> read(Arr& m)
    {
        const Arr&       c = m;
        std::vector<int> q;
        const std::size_t n = c.size();
        if (n > 100000) return q;
        for (std::size_t k = 0; k < n; ++k) q.push_back(val(c[k]));
        std::vector<int> w;
        for (auto it = c.begin(); it != c.end(); ++it) w.push_back(val(*it));
        bool ok = w == q;
        w.clear();
        for (auto it = c.cbegin(); it != c.cend(); ++it) w.push_back(val(*it));
        ok = ok && w == q;
        w.clear();
        for (auto it = m.begin(); it != m.end(); ++it) w.push_back(rd(*it));
        ok = ok && w == q;
        ok = ok && c.empty() == (n == 0);
        ok = ok && static_cast<std::size_t>(c.end() - c.begin()) == n;
        if (n > 0)
        {
            ok = ok && val(c.front()) == q.front() && val(c.back()) == q.back();
            ok = ok && rd(m.front()) == q.front() && rd(m.back()) == q.back();
            ok = ok && rd(m[0]) == q.front() && rd(m[n - 1]) == q.back();
        }
        ok = ok && raw(m, q);
        ok = ok && (c == c) && !(c != c);
        agree = agree && ok;
        return q;
    }
    template <typename X>
    static int rd(X&& x)
    {
        return rd2(x, std::integral_constant<bool, bits>{});
    }
    template <typename X>
    static int rd2(X&& x, std::true_type)
    {
        return static_cast<bool>(x) ? 1 : 0;
    }
    template <typename X>
    static int rd2(X&& x, std::false_type)
    {
        return val(x);
    }
    static bool raw(Arr& m, const std::vector<int>& q) { return raw2(m, q, std::integral_constant<bool, bits>{}); }
    static bool raw2(Arr&, const std::vector<int>&, std::true_type) { return true; }
    static bool raw2(Arr& m, const std::vector<int>& q, std::false_type)
    {
        const Arr& c = m;
        if (c.data() != m.data() || c.data() != c.begin()) return false;
        for (std::size_t k = 0; k < q.size(); ++k)
            if (val(m.data()[k]) != q[k]) return false;
        return true;
    }

    std::string proj(std::size_t s)
    {
        Slot& x = sl[s];
        J     j;
        j.num("s", static_cast<long long>(s) + 1).boolean("on", x.on);
        if (x.on)
        {
            j.list("q", read(x.a()));
            j.num("cap", big_out(x.a().capacity())).num("max", big_out(x.a().max_size()));
            j.num("al", idof(x.a().get_allocator()));
        }
        else
        {
            j.raw("q", "[]").num("cap", 0).num("max", 0).num("al", 0);
        }
        return j.done();
    }

    template <typename F>
    static std::string guarded(F&& f)
    {
#if defined(__cpp_exceptions)
        try
        {
            f();
            return "ok";
        } catch (const std::length_error&)
        {
            return "length_error";
        } catch (const std::out_of_range&)
        {
            return "out_of_range";
        } catch (const std::bad_alloc&)
        {
            return "bad_alloc";
        } catch (const ElemError&)
        {
            return "elem";
        } catch (...)
        {
            return "other";
        }
#else
        f();
        return "ok";
#endif
    }

    // ---- operations that exist only for some element types ----
    template <typename U = T, std::enable_if_t<std::is_copy_constructible<U>::value, int> = 0>
    void copyish(const Op& o, Slot& d, bool& handled, std::string& r)
    {
        handled = true;
        if (o.name == "copynew")
            r = guarded([&] {
                new (d.mem) Arr(static_cast<const Arr&>(src(o, 3).a()));
                d.on = true;
            });
        else if (o.name == "copynewa")
            r = guarded([&] {
                const ArrAlloc al = mka(static_cast<int>(o.at(4)));
                new (d.mem) Arr(static_cast<const Arr&>(src(o, 3).a()), al);
                d.on = true;
            });
        else if (o.name == "copyassign")
            r = guarded([&] { d.a() = static_cast<const Arr&>(src(o, 3).a()); });
        else if (o.name == "list")
        {
            std::vector<Elem> v;
            long              t = Fault::throw_in();
            Fault::throw_in()   = 0;
            v.reserve(o.a.size());
            for (std::size_t k = 5; k < o.a.size(); ++k) v.push_back(mkE(o.at(k)));
            const ArrAlloc    al  = mka(static_cast<int>(o.at(3)));
            const std::size_t lim = lim_in(o.at(4));
            Fault::throw_in()     = t;
            const std::size_t n   = v.size();
            r                     = guarded([&] {
                // alternate between range and list construction
                if (n == 2 && lim == SIZE_MAX)
                    new (d.mem) Arr({conv(v[0]), conv(v[1])}, al);
                else if (n == 3)
                    new (d.mem) Arr({conv(v[0]), conv(v[1]), conv(v[2])}, lim, al);
                else if (lim == SIZE_MAX)
                    new (d.mem) Arr(v.data(), v.data() + n, al);
                else
                    new (d.mem) Arr(v.data(), v.data() + n, lim, al);
                d.on = true;
            });
            Fault::throw_in() = 0;
        }
        else if (o.name == "pushalias")
        {
            const std::size_t k = static_cast<std::size_t>(o.at(3)) - 1;
            r                   = guarded([&] { pushalias(d.a(), k); });
        }
        else if (o.name == "resizealias")
        {
            const std::size_t k = static_cast<std::size_t>(o.at(4)) - 1;
            r                   = guarded([&] { resizealias(d.a(), count_in(o.at(3)), k); });
        }
        else if (o.name == "assignalias")
        {
            const std::size_t k = static_cast<std::size_t>(o.at(4)) - 1;
            r                   = guarded([&] { assignalias(d.a(), count_in(o.at(3)), k); });
        }
        else if (o.name == "assign")
            r = guarded([&] { d.a().assign(count_in(o.at(3)), quiet(o.at(4))); });
        else if (o.name == "resize" && o.at(4) != 0)
            r = guarded([&] { d.a().resize(count_in(o.at(3)), quiet(o.at(4))); });
        else
            handled = false;
    }
    template <typename U = T, std::enable_if_t<!std::is_copy_constructible<U>::value, int> = 0>
    void copyish(const Op&, Slot&, bool& handled, std::string&)
    {
        handled = false;
    }
    static bool needs_copy(const Op& o)
    {
        return o.name == "copynew" || o.name == "copynewa" || o.name == "copyassign" || o.name == "list" ||
               o.name == "pushalias" || o.name == "resizealias" || o.name == "assignalias" || o.name == "assign" ||
               (o.name == "resize" && o.at(4) != 0);
    }
    template <typename AA>
    static void pushalias(AA& a, std::size_t k)
    {
        const auto& c = a;
        a.push_back(c[k]);
    }
    template <typename AA>
    static void resizealias(AA& a, std::size_t n, std::size_t k)
    {
        const auto& c = a;
        a.resize(n, c[k]);
    }
    template <typename AA>
    static void assignalias(AA& a, std::size_t n, std::size_t k)
    {
        const auto& c = a;
        a.assign(n, c[k]);
    }
    static Elem mkE(long long v) { return mkE2(v, std::integral_constant<bool, bits>{}); }
    static Elem mkE2(long long v, std::true_type) { return v != 0 ? 1 : 0; }
    static Elem mkE2(long long v, std::false_type) { return mk<Elem>(v); }
    static T    conv(const Elem& e) { return conv2(e, std::integral_constant<bool, bits>{}); }
    static bool conv2(const Elem& e, std::true_type) { return e != 0; }
    static T    conv2(const Elem& e, std::false_type) { return e; }

    // builds an argument without consuming an armed element fault
    static T quiet(long long v)
    {
        const long t      = Fault::throw_in();
        Fault::throw_in() = 0;
        struct Re
        {
            long t;
            ~Re() { Fault::throw_in() = t; }
        } re{t};
        return mk<T>(v);
    }
    Slot& src(const Op& o, std::size_t k) { return sl[static_cast<std::size_t>(o.at(k)) - 1]; }

    // ---- bool-only operations ----
    void bitop(const Op& o, Slot& d, J& j, std::string& r) { bitop2(o, d, j, r, std::integral_constant<bool, bits>{}); }
    template <typename Sl>
    void bitop2(const Op& o, Sl&, J&, std::string&, std::false_type)
    {
        bad_script("bit operation on elements: " + o.name);
    }
    template <typename Sl>
    void bitop2(const Op& o, Sl& d, J& j, std::string& r, std::true_type)
    {
        auto&             a = d.a();
        const std::size_t k = count_in(o.at(3)) - 1;
        r                   = "ok";
        if (o.name == "flip")
            a[k].flip();
        else if (o.name == "refassign")
        {
            auto ref = a[static_cast<std::size_t>(o.at(4)) - 1];
            a[k]     = ref;
        }
        else if (o.name == "bit")
            j.num("val", Arr::test(a, k) ? 1 : 0);
        else if (o.name == "setbit")
            Arr::set(a, k, o.at(4) != 0);
    }

    template <typename It>
    static bool arith(It b, It e, std::size_t n)
    {
        using D = std::ptrdiff_t;
        bool ok = (e - b) == static_cast<D>(n) && (b - e) == -static_cast<D>(n);
        ok      = ok && (b == e) == (n == 0) && (b != e) == (n != 0) && (b < e) == (n != 0) && (b <= e) &&
             (e >= b) && (e > b) == (n != 0) && !(e < b);
        It x = b;
        x += static_cast<D>(n);
        ok = ok && x == e;
        x -= static_cast<D>(n);
        ok = ok && x == b;
        ok = ok && (b + static_cast<D>(n)) == e && (e - static_cast<D>(n)) == b;
        if (n > 0)
        {
            It y = b;
            It z = y++;
            ok   = ok && z == b && y == b + 1 && (y > z) && !(y < z) && (y >= z) && !(y <= z);
            z    = y--;
            ok   = ok && z == b + 1 && y == b;
            ok   = ok && &(++y) == &y && y - b == 1;
            ok   = ok && &(--y) == &y && y - b == 0;
        }
        return ok;
    }

    void history(std::size_t slots, const std::vector<Op>& ops)
    {
        sl.resize(slots);
        config(slots);
        for (std::size_t s = 0; s < slots; ++s) sl[s].last = proj(s);
        for (const auto& o : ops)
        {
            const std::string fk = o.w.at(0);
            const std::size_t si = static_cast<std::size_t>(o.at(2)) - 1;
            Slot&             d  = sl.at(si);
            const bool        creates =
                o.name == "new" || o.name == "list" || o.name == "copynew" || o.name == "copynewa" ||
                o.name == "movenew" || o.name == "movenewa";
            if (creates == d.on) continue;  // not applicable here
            const bool two = o.name == "copynew" || o.name == "copynewa" || o.name == "movenew" ||
                             o.name == "movenewa" || o.name == "copyassign" || o.name == "moveassign" || o.name == "eq";
            if (two && !src(o, 3).on) continue;
            const std::size_t n = d.on ? d.a().size() : 0;
            if ((o.name == "write" || o.name == "pushalias" || o.name == "flip" || o.name == "refassign") &&
                static_cast<std::size_t>(o.at(3)) > n)
                continue;
            if ((o.name == "resizealias" || o.name == "assignalias" || o.name == "refassign") &&
                static_cast<std::size_t>(o.at(4)) > n)
                continue;
            if (!copyable && needs_copy(o)) continue;
#if !defined(__cpp_exceptions)
            if (o.name == "at" || fk == "e") continue;
#endif
            J j;
            j.str("op", o.name).num("s", static_cast<long long>(si) + 1);
            mem->failed  = false;
            mem->fail_in = fk == "a" ? o.at(1) : 0;
            Fault::arm(fk == "e" ? o.at(1) : 0);
            std::string r;
            bool        handled = false;
            agree               = true;
            copyish(o, d, handled, r);
            if (!handled)
            {
                handled = true;
                if (o.name == "new")
                    r = guarded([&] {
                        const ArrAlloc al = mka(static_cast<int>(o.at(3)));
                        if (o.at(4) >= BIG)
                            new (d.mem) Arr(al);
                        else
                            new (d.mem) Arr(lim_in(o.at(4)), al);
                        d.on = true;
                    });
                else if (o.name == "movenew")
                    r = guarded([&] {
                        new (d.mem) Arr(std::move(src(o, 3).a()));
                        d.on = true;
                    });
                else if (o.name == "movenewa")
                    r = guarded([&] {
                        const ArrAlloc al = mka(static_cast<int>(o.at(4)));
                        new (d.mem) Arr(std::move(src(o, 3).a()), al);
                        d.on = true;
                    });
                else if (o.name == "destroy")
                {
                    d.a().~Arr();
                    d.on = false;
                    r    = "ok";
                }
                else if (o.name == "push")
                {
                    T tmp(quiet(o.at(3)));
                    r = guarded([&] { push(d.a(), tmp, static_cast<int>((o.at(3) + static_cast<long long>(n)) % 3)); });
                }
                else if (o.name == "pop")
                    r = guarded([&] { d.a().pop_back(); });
                else if (o.name == "clear")
                    r = guarded([&] { d.a().clear(); });
                else if (o.name == "resize")
                    r = guarded([&] { d.a().resize(count_in(o.at(3))); });
                else if (o.name == "reserve")
                    r = guarded([&] { d.a().reserve(count_in(o.at(3))); });
                else if (o.name == "shrink")
                    r = guarded([&] { d.a().shrink_to_fit(); });
                else if (o.name == "write")
                    r = guarded([&] {
                        const std::size_t k = static_cast<std::size_t>(o.at(3)) - 1;
                        write(d.a(), k, o.at(4), static_cast<int>((o.at(4) + o.at(3)) % 3));
                    });
                else if (o.name == "moveassign")
                    r = guarded([&] { d.a() = std::move(src(o, 3).a()); });
                else if (o.name == "eq")
                {
                    const Arr& x = d.a();
                    const Arr& y = src(o, 3).a();
                    j.boolean("eq", x == y).boolean("ne", x != y);
                    r = "ok";
                }
                else if (o.name == "at")
                {
#if defined(__cpp_exceptions)
                    int v = 0, w = 0;
                    const std::size_t k = count_in(o.at(3)) - 1;
                    r = guarded([&] { v = rd(static_cast<const Arr&>(d.a()).at(k)); });
                    std::string r2 = guarded([&] { w = rd(d.a().at(k)); });
                    agree          = agree && r == r2 && v == w;
                    j.num("val", v);
#endif
                }
                else if (o.name == "iter")
                {
                    std::vector<int> fw, bw, rnd;
                    const Arr&       c = d.a();
                    for (auto it = d.a().begin(); it != d.a().end(); it++) fw.push_back(rd(*it));
                    for (auto it = c.end(); it != c.begin();) bw.push_back(rd(*--it));
                    for (std::size_t k = 0; k < n; ++k)
                    {
                        const auto dk = static_cast<std::ptrdiff_t>(k), dn = static_cast<std::ptrdiff_t>(n);
                        const int  p1 = rd(*(c.begin() + dk)), p2 = rd(*(c.end() - (dn - dk))), p3 = rd(c.begin()[dk]);
                        rnd.push_back(p1 == p2 && p2 == p3 ? p1 : -5);
                    }
                    j.list("fw", fw).list("bw", bw).list("rnd", rnd);
                    j.boolean("arith", arith(c.begin(), c.end(), n) && arith(d.a().begin(), d.a().end(), n));
                    r = "ok";
                }
                else
                    bitop(o, d, j, r);
            }
            Fault::throw_in() = 0;
            mem->fail_in      = 0;
            // arguments
            std::string a{"["};
            std::string v{"["};
            for (std::size_t k = 3; k < o.a.size(); ++k)
            {
                std::string& t = (o.name == "list" && k >= 5) ? v : a;
                if (t.size() > 1) t += ',';
                t += std::to_string(bits && (o.name == "push" || (o.name == "list" && k >= 5)) ? (o.a[k] != 0 ? 1 : 0)
                                                                                              : o.a[k]);
            }
            j.raw("a", a + "]");
            if (o.name == "list") j.raw("v", v + "]");
            j.str("f", mem->failed ? "a" : Fault::fired() ? "e" : "n").str("r", r);
            std::string post{"["};
            for (std::size_t s = 0; s < sl.size(); ++s)
            {
                std::string p = proj(s);
                if (p != sl[s].last)
                {
                    if (post.size() > 1) post += ',';
                    post += p;
                    sl[s].last = p;
                }
            }
            j.raw("post", post + "]").boolean("ag", agree);
            ledger(j);
            emit(j);
        }
        for (auto& s : sl)
        {
            if (s.on) s.a().~Arr();
            s.on = false;
        }
        for (auto& p : *pool)
            if (!p.led.live.empty()) die("memory left after every array was destroyed");
        if (Counted<T>::value && Fault::live() != 0) die("elements left after every array was destroyed");
    }
    template <typename AA, typename X>
    static void push(AA& a, X& x, int how)
    {
        push2(a, x, how, std::integral_constant<bool, copyable>{});
    }
    template <typename AA, typename X>
    static void push2(AA& a, X& x, int how, std::true_type)
    {
        if (how == 0)
            a.push_back(static_cast<const X&>(x));
        else if (how == 1)
            a.push_back(std::move(x));
        else
            a.emplace_back(static_cast<const X&>(x));
    }
    template <typename AA, typename X>
    static void push2(AA& a, X& x, int how, std::false_type)
    {
        if (how == 0)
            a.push_back(std::move(x));
        else
            a.emplace_back(std::move(x));
    }
    template <typename AA>
    static void write(AA& a, std::size_t k, long long v, int how)
    {
        T x(quiet(v));
        if (how == 0)
            a[k] = std::move(x);
        else if (how == 1)
            *(a.begin() + static_cast<std::ptrdiff_t>(k)) = std::move(x);
        else
        {
#if defined(__cpp_exceptions)
            a.at(k) = std::move(x);
#else
            a.begin()[static_cast<std::ptrdiff_t>(k)] = std::move(x);
#endif
        }
    }
    // what the model has to know about this configuration; limits come from the allocators themselves
    void config(std::size_t slots)
    {
        const int   so = idof(std::allocator_traits<ArrAlloc>::select_on_container_copy_construction(mka(1)));
        const int   socc = so == 1 ? 0 : so;
        std::string am{"["};
        for (int i = 1; i < 4; ++i)
        {
            ArrAlloc          al = mka(i);
            const std::size_t n  = std::allocator_traits<ArrAlloc>::max_size(al);
            const std::size_t m  = n >= BIG ? BIG : bits ? n * 8 : n;
            am += (i > 1 ? "," : "") + std::to_string(big_out(m));
        }
#if defined(__cpp_exceptions)
        const bool exc = true;
#else
        const bool exc = false;
#endif
        J j;
        j.str("op", "cfg").boolean("bits", bits).boolean("exc", exc).boolean("pocma", A::pocma).boolean("pocca", A::pocca);
        j.boolean("aleq", A::aleq).num("socc", socc).raw("amax", am + "]").boolean("tight", A::tight);
        j.boolean("count", Counted<T>::value).boolean("ledger", !A::tight && !A::aleq);
        j.num("slots", static_cast<long long>(slots));
        emit(j);
    }
    void ledger(J& j)
    {
        j.num("live", Counted<T>::value ? Fault::live() : 0);
        std::map<std::pair<int, std::size_t>, int> bag;
        int                                        total = 0;
        for (std::size_t i = 0; i < pool->size(); ++i)
        {
            for (auto& kv : (*pool)[i].led.live)
            {
                if (kv.second.size == 0) continue;  // an array without capacity may still hold an empty block
                if (kv.second.size % sizeof(Elem) != 0) die("block is not a whole number of elements");
                if (kv.second.align < alignof(Elem)) die("block is not aligned for its elements");
                ++bag[{static_cast<int>(i), kv.second.size / sizeof(Elem)}];
                ++total;
            }
        }
        std::string o{"["};
        for (auto& kv : bag)
        {
            if (o.size() > 1) o += ',';
            o += "[" + std::to_string(kv.first.first) + "," + std::to_string(kv.first.second) + "," +
                 std::to_string(kv.second) + "]";
        }
        j.raw("bl", o + "]").num("nbl", total);
    }
};

template <typename T, typename A>
void run(const Op& hdr, const std::vector<Op>& ops)
{
    using Elem = typename std::conditional<std::is_same<T, bool>::value, unsigned char, T>::type;
    // header: name slots can_realloc limit1 limit2 limit3 (in elements, bytes for bool)
    Mem                     m;
    std::array<PoolRes, 4>  p;
    mem  = &m;
    pool = &p;
    Fault::live() = 0;
    for (std::size_t i = 0; i < 4; ++i)
    {
        // 1: elements that cannot be moved as bytes are only grown where they are; 3: moved all the same
        p[i].led.can_realloc = hdr.at(2) == 1 && !std::is_trivially_copyable<Elem>::value ? Ledger::InPlace
                               : hdr.at(2) == 3                                          ? Ledger::Moving
                                                                                         : static_cast<int>(hdr.at(2));
        p[i].led.record          = false;
#if !defined(__cpp_exceptions)
        p[i].led.null_on_failure = true;
#endif
        const std::size_t unit = std::is_same<T, bool>::value ? 1 : sizeof(T);
        if (i > 0) p[i].limit = hdr.at(2 + i) >= BIG ? SIZE_MAX : static_cast<std::size_t>(hdr.at(2 + i)) * unit;
    }
    A::setup();
    {
        Runner<T, A> r;
        r.history(static_cast<std::size_t>(hdr.at(1)), ops);
    }
    A::teardown();
}

int main(int argc, char** argv)
{
    return drive(argc, argv, [](const Op& hdr, const std::vector<Op>& ops) {
        const std::string k = hdr.w.at(0);
#define CASE(name, T, ...) \
    if (k == name) return run<T, __VA_ARGS__>(hdr, ops);
        using TokN = Tok<false>;
        using TokX = Tok<true>;
#if GROUP == 1
        CASE("tok-00", TokN, AL<false, false, false>)
        CASE("int-00", int, AL<false, false, false>)
#elif GROUP == 2
        CASE("thr-00", TokX, AL<false, false, false>)
        CASE("mov-11", MovTok, AL<true, true, false>)
#elif GROUP == 3
        CASE("tok-10", TokN, AL<true, false, false>)
        CASE("tok-01", TokN, AL<false, true, false>)
#elif GROUP == 4
        CASE("tok-11", TokN, AL<true, true, false>)
        CASE("tok-eq", TokN, AL<false, false, true>)
        CASE("tok-sc", TokN, AL<false, false, false, true>)
#elif GROUP == 5
        CASE("tok-p", TokN, AP)
        CASE("odd-p", Odd3, AP)
#elif GROUP == 6
        CASE("tok-b", TokN, AB)
        CASE("int-b", int, AB)
#elif GROUP == 7
        CASE("bool-00", bool, AL<false, false, false>)
        CASE("bool-p", bool, AP)
#elif GROUP == 8
        CASE("bool-10", bool, AL<true, false, false>)
        CASE("bool-01", bool, AL<false, true, false>)
        CASE("bool-r", bool, AR)
#elif GROUP == 9
        CASE("thr-p", TokX, AP)
        CASE("int-r", int, AR)
#elif GROUP == 10
        CASE("bool-b", bool, AB)
        CASE("mov-p", MovTok, AP)
#elif GROUP == 11
        CASE("bool-11", bool, AL<true, true, false>)
        CASE("bool-eq", bool, AL<false, false, true>)
        CASE("bool-sc", bool, AL<false, false, false, true>)
#endif
        bad_script("configuration " + k);
    });
}
