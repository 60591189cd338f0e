// Drives pools of type-erased variants. Storage kind: GROUP; copy/move configuration: history header.
#include "logres.hpp"
#include "toks.hpp"

#include "cetl/unbounded_variant.hpp"

#include <array>
#include <memory>
#include <type_traits>

using namespace vh;

static constexpr int NRES = 2;
struct Pool
{
    std::array<LogRes, NRES> res;
    long                     fail_in{0};
    bool                     failed{false};
};
static Pool* pool = nullptr;

// The resource type seen by the variants: routes to the ledger, asks the pool whether to refuse.
struct Res
{
    int   id{0};
    void* allocate(std::size_t n, std::size_t al)
    {
        auto& led = pool->res[static_cast<std::size_t>(id - 1)].led;
        if (pool->fail_in > 0 && --pool->fail_in == 0)
        {
            pool->failed = true;
            led.fail_in  = 1;
        }
        return led.allocate(n, al);
    }
    void deallocate(void* p, std::size_t n, std::size_t al)
    {
        pool->res[static_cast<std::size_t>(id - 1)].led.deallocate(p, n, al);
    }
};
static Res res_of[NRES + 1];

constexpr int NULLV    = -1000;
constexpr int NOTASKED = -2000;
constexpr int WRONG    = -3000;

template <int Id, int Pad>
struct Plain
{
    Tok<false, Pad> t;
    Plain(int x)
        : t(x)
    {
    }
    Plain(std::initializer_list<int> l, int extra)
        : t([&] {
            int s = extra;
            for (int x : l) s += x;
            return s;
        }())
    {
    }
    int                            val() const { return t.get(); }
    void                           set(int x) { t.v = (t.check(), x); }
    static constexpr cetl::type_id _get_type_id_() { return {{Id}}; }
};

struct IB1 : cetl::rtti_helper<cetl::type_id_type<6>>
{
    virtual int one() const = 0;
};
struct IB2 : cetl::rtti_helper<cetl::type_id_type<7, 1>>
{
    virtual int two() const = 0;
};
struct IB3 : cetl::rtti_helper<cetl::type_id_type<8>>
{
    virtual int three() const = 0;
};

template <int Id, int Pad>
struct Poly : cetl::rtti_helper<cetl::type_id_type<Id>, IB1, IB2>
{
    Tok<false, Pad> t;
    Poly(int x)
        : t(x)
    {
    }
    Poly(std::initializer_list<int> l, int extra)
        : t([&] {
            int s = extra;
            for (int x : l) s += x;
            return s;
        }())
    {
    }
    Poly(const Poly&) = default;
    Poly(Poly&&)      = default;
    int  val() const { return t.get(); }
    void set(int x) { t.v = (t.check(), x); }
    int  one() const override { return t.get(); }
    int  two() const override { return t.get(); }
};

template <int K>
struct TypeOf;
template <>
struct TypeOf<1>
{
    using type = Plain<1, 0>;
};
template <>
struct TypeOf<2>
{
    using type = Plain<2, 47>;
};
template <>
struct TypeOf<3>
{
    using type = Plain<3, 655>;
};
template <>
struct TypeOf<4>
{
    using type = Poly<4, 0>;
};
template <>
struct TypeOf<5>
{
    using type = Poly<5, 47>;
};
template <>
struct TypeOf<6>
{
    using type = IB1;
};
template <>
struct TypeOf<7>
{
    using type = IB2;
};
template <>
struct TypeOf<8>
{
    using type = IB3;
};
template <int K>
using Ty = typename TypeOf<K>::type;
static_assert(sizeof(Ty<2>) == 64 && sizeof(Ty<3>) > 64 && sizeof(Ty<4>) <= 64 && sizeof(Ty<5>) > 64, "sizes");

template <int I, int P>
int look(const Plain<I, P>& x)
{
    return x.val();
}
template <int I, int P>
int look(const Poly<I, P>& x)
{
    return x.val();
}
static int look(const IB1& x) { return x.one(); }
static int look(const IB2& x) { return x.two(); }
static int look(const IB3& x) { return x.three(); }

#if GROUP == 1
using PMR                       = void;
static constexpr std::size_t FP = 64, ALIGN = alignof(std::max_align_t);
#elif GROUP == 2
using PMR                       = Res;
static constexpr std::size_t FP = 0, ALIGN = alignof(std::max_align_t);
#elif GROUP == 3
using PMR                       = Res;
static constexpr std::size_t FP = 64, ALIGN = alignof(std::max_align_t);
#else
using PMR                       = Res;
static constexpr std::size_t FP = 64, ALIGN = 64;
#endif
static constexpr bool HAS_PMR = !std::is_void<PMR>::value;

template <int K>
struct Fits : std::integral_constant<bool, HAS_PMR || sizeof(Ty<K>) <= FP>
{};

// calls f(integral_constant<K>) for the run-time type k, if the storage kind can be asked for it
template <int K, typename F>
void one_type(F&& f, std::true_type)
{
    f(std::integral_constant<int, K>{});
}
template <int K, typename F>
void one_type(F&&, std::false_type)
{
}
template <typename F>
void with_type(long long k, F&& f)
{
    switch (k)
    {
    case 1: return one_type<1>(f, Fits<1>{});
    case 2: return one_type<2>(f, Fits<2>{});
    case 3: return one_type<3>(f, Fits<3>{});
    case 4: return one_type<4>(f, Fits<4>{});
    case 5: return one_type<5>(f, Fits<5>{});
    default: return;
    }
}
template <typename F>
void with_query(long long k, F&& f)
{
    switch (k)
    {
    case 6: return one_type<6>(f, Fits<6>{});
    case 7: return one_type<7>(f, Fits<7>{});
    case 8: return one_type<8>(f, Fits<8>{});
    default: return with_type(k, f);
    }
}

template <typename V, bool Pm>
struct Maker  // with a memory resource
{
    static V* empty(void* at, int m) { return new (at) V(&res_of[m]); }
    template <typename T, typename A>
    static V* value(void* at, int m, A&& a)
    {
        return new (at) V(&res_of[m], std::forward<A>(a));
    }
    template <typename T>
    static V* in_place(void* at, int m, int v)
    {
        return new (at) V(&res_of[m], typename V::template in_place_type_t<T>{}, v);
    }
    template <typename T>
    static V* listed(void* at, int m, int v)
    {
        return new (at) V(&res_of[m], typename V::template in_place_type_t<T>{}, {v - 7, 1}, 6);
    }
    template <typename T>
    static V* made(void* at, int m, int v)
    {
        return new (at) V(cetl::make_unbounded_variant<T, V>(&res_of[m], v));
    }
    template <typename T>
    static V* made_listed(void* at, int m, int v)
    {
        return new (at) V(cetl::make_unbounded_variant<T, V>(&res_of[m], {v - 7, 1}, 6));
    }
    static int mr(const V& v)
    {
        const auto* p = v.get_memory_resource();
        for (int k = 1; k <= NRES; ++k)
        {
            if (p == &res_of[k]) return k;
        }
        return WRONG;
    }
    static void reset_to(V& v, int m) { v.reset(&res_of[m]); }
};
template <typename V>
struct Maker<V, false>
{
    static V* empty(void* at, int) { return new (at) V(); }
    template <typename T, typename A>
    static V* value(void* at, int, A&& a)
    {
        return new (at) V(std::forward<A>(a));
    }
    template <typename T>
    static V* in_place(void* at, int, int v)
    {
        return new (at) V(typename V::template in_place_type_t<T>{}, v);
    }
    template <typename T>
    static V* listed(void* at, int, int v)
    {
        return new (at) V(typename V::template in_place_type_t<T>{}, {v - 7, 1}, 6);
    }
    template <typename T>
    static V* made(void* at, int, int v)
    {
        return new (at) V(cetl::make_unbounded_variant<T, V>(v));
    }
    template <typename T>
    static V* made_listed(void* at, int, int v)
    {
        return new (at) V(cetl::make_unbounded_variant<T, V>({v - 7, 1}, 6));
    }
    static int  mr(const V&) { return 0; }
    static void reset_to(V&, int) {}
};

template <typename V, bool Can>
struct Copier
{
    static V*   make(void* at, const V& u) { return new (at) V(u); }
    static bool assign(V& v, const V& u) { return &(v = u) == &v; }
};
template <typename V>
struct Copier<V, false>
{
    static V*   make(void*, const V&) { return nullptr; }
    static bool assign(V&, const V&) { return false; }
};
template <typename V, bool Can>
struct Mover
{
    static V*   make(void* at, V& u) { return new (at) V(std::move(u)); }
    static bool assign(V& v, V& u) { return &(v = std::move(u)) == &v; }
};
template <typename V>
struct Mover<V, false>
{
    static V*   make(void*, V&) { return nullptr; }
    static bool assign(V&, V&) { return false; }
};
template <typename V, bool Can>
struct Swapper
{
    static void go(V& a, V& b) { a.swap(b); }
    template <typename T>
    static V* made(void* at, int m, int v, bool listed)
    {
        using M = Maker<V, HAS_PMR>;
        return listed ? M::template made_listed<T>(at, m, v) : M::template made<T>(at, m, v);
    }
};
template <typename V>
struct Swapper<V, false>
{
    static void go(V&, V&) {}
    template <typename T>
    static V* made(void* at, int m, int v, bool listed)
    {
        using M = Maker<V, HAS_PMR>;
        return listed ? M::template listed<T>(at, m, v) : M::template in_place<T>(at, m, v);
    }
};

template <bool Cp, bool Mv>
struct Run
{
    using V = cetl::unbounded_variant<FP, Cp, Mv, ALIGN, PMR>;
    using M = Maker<V, HAS_PMR>;
    struct Cell
    {
        alignas(V) unsigned char raw[sizeof(V)];
        V* p{nullptr};
    };
    std::vector<Cell*> cell;

    template <int K>
    void ask(V& v, std::vector<int>& q, std::vector<int>& c)
    {
        using Q       = Ty<K>;
        Q*       m    = cetl::get_if<Q>(&v);
        const Q* k    = cetl::get_if<Q>(const_cast<const V*>(&v));
        const Q* k2   = cetl::get_if<const Q>(&v);
        auto     read = [](const Q* p) {
            if (p == nullptr) return NULLV;
            if (reinterpret_cast<std::uintptr_t>(p) % alignof(Q) != 0) return WRONG;
            return look(*p);
        };
        if (k != k2 || cetl::get_if<Q>(static_cast<V*>(nullptr)) != nullptr ||
            cetl::get_if<Q>(static_cast<const V*>(nullptr)) != nullptr || m != k)
        {
            q.push_back(WRONG);
            c.push_back(WRONG);
            return;
        }
        q.push_back(read(m));
        c.push_back(read(k));
    }
    template <int K>
    void ask_if(V& v, std::vector<int>& q, std::vector<int>& c, std::true_type)
    {
        ask<K>(v, q, c);
    }
    template <int K>
    void ask_if(V&, std::vector<int>& q, std::vector<int>& c, std::false_type)
    {
        q.push_back(NOTASKED);
        c.push_back(NOTASKED);
    }

    std::string obs(Cell& x)
    {
        if (x.p == nullptr) return "{\"on\":false}";
        V&                  v  = *x.p;
        const cetl::type_id id = v.type_id();
        int                 t  = WRONG;
        if (id == cetl::type_id_value<void>) t = 0;
        if (id == cetl::type_id_value<Ty<1>>) t = 1;
        if (id == cetl::type_id_value<Ty<2>>) t = 2;
        if (id == cetl::type_id_value<Ty<3>>) t = 3;
        if (id == cetl::type_id_value<Ty<4>>) t = 4;
        if (id == cetl::type_id_value<Ty<5>>) t = 5;
        std::vector<int> q, c;
        ask_if<1>(v, q, c, Fits<1>{});
        ask_if<2>(v, q, c, Fits<2>{});
        ask_if<3>(v, q, c, Fits<3>{});
        ask_if<4>(v, q, c, Fits<4>{});
        ask_if<5>(v, q, c, Fits<5>{});
        ask_if<6>(v, q, c, Fits<6>{});
        ask_if<7>(v, q, c, Fits<7>{});
        ask_if<8>(v, q, c, Fits<8>{});
        // the value itself sits at an address with the storage's alignment
        void* at = nullptr;
        if (t > 0) with_type(t, [&](auto k) { at = cetl::get_if<Ty<decltype(k)::value>>(&v); });
        if (at != nullptr && reinterpret_cast<std::uintptr_t>(at) % ALIGN != 0) t = WRONG;
        J j;
        j.boolean("on", true).boolean("e", v.has_value()).boolean("x", v.valueless_by_exception());
        j.num("n", static_cast<long long>(v.type_size())).num("tid", t).num("mr", M::mr(v)).list("q", q).list("c", c);
        return j.done();
    }

    template <int K, typename F>
    int get_value(V& v, long long how, F&&, std::true_type /*concrete*/)
    {
        using Q = Ty<K>;
        switch (how)
        {
        case 0: return look(cetl::get<const Q&>(v));
        case 1: return look(cetl::get<Q&>(v));
        case 2: return look(cetl::get<Q>(v));
        case 3: return look(cetl::get<Q>(std::move(v)));
        case 5: return look(cetl::get<const Q&>(const_cast<const V&>(v)));
        case 6: return look(cetl::get<Q>(const_cast<const V&>(v)));
        default: return look(cetl::get<Q&&>(std::move(v)));
        }
    }
    template <int K, typename F>
    int get_value(V& v, long long how, F&&, std::false_type)
    {
        using Q = Ty<K>;
        switch (how)
        {
        case 0: return look(cetl::get<const Q&>(v));
        case 1:
        case 2: return look(cetl::get<Q&>(v));
        case 5:
        case 6: return look(cetl::get<const Q&>(const_cast<const V&>(v)));
        default: return look(cetl::get<Q&&>(std::move(v)));
        }
    }

    void run(const Op& hdr, const std::vector<Op>& ops)
    {
        const std::size_t n = static_cast<std::size_t>(hdr.at(1));
        Pool              pl;
        pool = &pl;
        for (auto& r : pl.res)
        {
            r.led.null_on_failure = hdr.at(2) != 0;
            r.led.record          = false;
        }
        for (int k = 0; k <= NRES; ++k) res_of[k].id = k;
        Fault::arm(0);
        Fault::live() = 0;
            for (std::size_t i = 0; i < n; ++i)
        {
            void* p = nullptr;
            if (posix_memalign(&p, alignof(Cell) < 8 ? 8 : alignof(Cell), sizeof(Cell)) != 0) std::_Exit(3);
            std::memset(p, 0xEE, sizeof(Cell));
            cell.push_back(new (p) Cell);
        }
        {
            J           j;
            std::string big{"["}, bases{"["}, ask{"["};
            const bool  b[]   = {(FP < sizeof(Ty<1>)), (FP < sizeof(Ty<2>)), (FP < sizeof(Ty<3>)), (FP < sizeof(Ty<4>)), (FP < sizeof(Ty<5>))};
            const bool  fit[] = {Fits<1>::value, Fits<2>::value, Fits<3>::value, Fits<4>::value,
                                 Fits<5>::value, Fits<6>::value, Fits<7>::value, Fits<8>::value};
            for (int k = 0; k < 5; ++k) big += std::string(k ? "," : "") + (b[k] && HAS_PMR ? "true" : "false");
            for (int k = 0; k < 8; ++k) ask += std::string(k ? "," : "") + (fit[k] ? "true" : "false");
            j.str("op", "cfg").boolean("pmr", HAS_PMR).boolean("cp", Cp).boolean("mv", Mv);
#if defined(__cpp_exceptions)
            j.boolean("exc", true);
#else
            j.boolean("exc", false);
#endif
            j.raw("big", big + "]").raw("bases", "[[],[],[],[6,7],[6,7]]").raw("ask", ask + "]").num("slots", static_cast<long long>(n));
            j.list("size", std::vector<std::size_t>{sizeof(Ty<1>), sizeof(Ty<2>), sizeof(Ty<3>), sizeof(Ty<4>), sizeof(Ty<5>)});
            emit(j);
        }
        for (const auto& o : ops) step(o);
        for (std::size_t i = 0; i < n; ++i)
        {
            if (cell[i]->p != nullptr) step(parse("dest n 0 " + std::to_string(i + 1)));
        }
        for (auto* c : cell) std::free(c);
        cell.clear();
    }

    void step(const Op& o)
    {
        const char        f = o.w.at(0)[0];
        const std::size_t s = static_cast<std::size_t>(o.at(2));
        if (s < 1 || s > cell.size()) bad_script("slot");
        Cell&                  x = *cell[s - 1];
        std::vector<long long> a(o.a.begin() + 3, o.a.end());
        auto other = [&]() -> Cell& { return *cell.at(static_cast<std::size_t>(a.at(0)) - 1); };
        const auto& nm = o.name;
        int         ret = NULLV;
        std::string r{"ok"};
        bool        how_bad = false;

        // skip what does not apply
        const bool makes = nm == "new" || nm == "newv" || nm == "copynew" || nm == "movenew";
        if (makes == (x.p != nullptr)) return;
        const bool two = nm == "copynew" || nm == "movenew" || nm == "copya" || nm == "movea" || nm == "swap";
        if (two && (other().p == nullptr)) return;
        if ((nm == "copynew" || nm == "copya") && !Cp) return;
        if ((nm == "movenew" || nm == "movea") && !Mv) return;
        if (nm == "swap" && !(Cp || Mv)) return;
        if (nm == "resetmr" && !HAS_PMR) return;
        if (nm == "write" && !x.p->has_value()) return;
        if (nm == "newv" || nm == "store")
        {
            bool fits = false;
            with_type(a.at(nm == "newv" ? 1 : 0), [&](auto) { fits = true; });
            if (!fits) return;
        }
        if (nm == "get")
        {
            bool fits = false, has = false;
            with_query(a.at(0), [&](auto k) {
                fits = true;
                has  = cetl::get_if<Ty<decltype(k)::value>>(x.p) != nullptr;
            });
            if (!fits) return;
#if !defined(__cpp_exceptions)
            if (!has) return;
#endif
        }

        pool->failed  = false;
        const auto go = [&] {
            // arguments are ready before the failure is armed
            auto arm = [&] {
                pool->fail_in = f == 'a' ? o.at(1) : 0;
                Fault::arm(f == 'e' ? o.at(1) : 0);
            };
            if (nm == "new")
            {
                x.p = M::empty(x.raw, static_cast<int>(a.at(0)));
            }
            else if (nm == "newv")
            {
                const int       m = static_cast<int>(a.at(0)), v = static_cast<int>(a.at(2));
                const long long how = a.size() > 3 ? a[3] : 0;
                with_type(a.at(1), [&](auto k) {
                    using T = Ty<decltype(k)::value>;
                    if (how == 0)
                    {
                        T t(v);
                        arm();
                        x.p = M::template value<T>(x.raw, m, std::move(t));
                    }
                    else if (how == 1)
                    {
                        const T t(v);
                        arm();
                        x.p = M::template value<T>(x.raw, m, t);
                    }
                    else
                    {
                        arm();
                        x.p = how == 2   ? M::template in_place<T>(x.raw, m, v)
                              : how == 3 ? M::template listed<T>(x.raw, m, v)
                                         : Swapper<V, Cp || Mv>::template made<T>(x.raw, m, v, how == 5);
                    }
                });
            }
            else if (nm == "copynew")
            {
                arm();
                x.p = Copier<V, Cp>::make(x.raw, *other().p);
            }
            else if (nm == "movenew")
            {
                x.p = Mover<V, Mv>::make(x.raw, *other().p);
            }
            else if (nm == "store")
            {
                const int       v   = static_cast<int>(a.at(1));
                const long long how = a.size() > 2 ? a[2] : 0;
                with_type(a.at(0), [&](auto k) {
                    using T = Ty<decltype(k)::value>;
                    T* p    = nullptr;
                    if (how == 0)
                    {
                        T t(v);
                        arm();
                        p = cetl::get_if<T>(&(*x.p = std::move(t)));
                    }
                    else if (how == 1)
                    {
                        const T t(v);
                        arm();
                        p = cetl::get_if<T>(&(*x.p = t));
                    }
                    else
                    {
                        arm();
                        p = how == 2 ? x.p->template emplace<T>(v) : x.p->template emplace<T>({v - 7, 1}, 6);
                        if (p != cetl::get_if<T>(x.p)) how_bad = true;
                    }
                    if (p != nullptr) ret = look(*p);
                });
            }
            else if (nm == "copya")
            {
                arm();
                how_bad = !Copier<V, Cp>::assign(*x.p, *other().p);
            }
            else if (nm == "movea")
            {
                how_bad = !Mover<V, Mv>::assign(*x.p, *other().p);
            }
            else if (nm == "swap")
            {
                arm();
                Swapper<V, Cp || Mv>::go(*x.p, *other().p);
            }
            else if (nm == "reset") x.p->reset();
            else if (nm == "resetmr") M::reset_to(*x.p, static_cast<int>(a.at(0)));
            else if (nm == "dest")
            {
                x.p->~V();
                x.p = nullptr;
                std::memset(x.raw, 0xEE, sizeof(x.raw));
            }
            else if (nm == "write")
            {
                for (int k = 1; k <= 5; ++k)
                {
                    with_type(k, [&](auto t) {
                        if (auto* p = cetl::get_if<Ty<decltype(t)::value>>(x.p)) p->set(static_cast<int>(a.at(0)));
                    });
                }
            }
            else if (nm == "get")
            {
                with_query(a.at(0), [&](auto k) {
                    constexpr int K = decltype(k)::value;
                    ret = this->template get_value<K>(*x.p, a.at(1), 0, std::integral_constant<bool, (K <= 5)>{});
                });
            }
            else bad_script("op " + nm);
        };
#if defined(__cpp_exceptions)
        try
        {
            go();
        } catch (const ElemError&)
        {
            r = "elem";
        } catch (const cetl::bad_unbounded_variant_access& e)
        {
            r = told(e, "bad");
        } catch (const std::bad_alloc&)
        {
            r = "alloc";
        }
#else
        go();
        if (pool->failed) r = "alloc";
#endif
        const bool fired = pool->failed || Fault::fired();
        pool->fail_in    = 0;
        Fault::arm(0);
        if (how_bad) r = "wrong";
        std::string post{"["};
        for (auto& c : cell)
        {
            if (post.size() > 1) post += ',';
            post += obs(*c);
        }
        std::vector<std::size_t> bl;
        for (auto& m : pool->res) bl.push_back(m.led.live.size());
        J j;
        j.str("op", nm).num("s", static_cast<long long>(s)).list("a", a).str("r", r).num("ret", ret).boolean("fired", fired);
        j.num("live", Fault::live()).list("bl", bl).raw("post", post + "]");
        emit(j);
    }
};

int main(int argc, char** argv)
{
    return drive(argc, argv, [](const Op& hdr, const std::vector<Op>& ops) {
        const std::string k = hdr.w.at(0);
        if (k == "cm") return Run<true, true>{}.run(hdr, ops);
        if (k == "c") return Run<true, false>{}.run(hdr, ops);
        if (k == "m") return Run<false, true>{}.run(hdr, ops);
        if (k == "n") return Run<false, false>{}.run(hdr, ops);
        bad_script("kind " + k);
    });
}
