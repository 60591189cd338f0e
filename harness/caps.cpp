// What optionals and variants of element types with all kinds of special functions can do, and what they use for it
// (spec/Caps.tla). GROUP: 0 optionals, single alternatives and type-erased variants; 1..4 pairs of alternatives, by the
// first one. FARS: how far apart the alternatives of the pairs are that are used, not only asked.
#include "alts.hpp"
#include "common.hpp"
#include "toks.hpp"

#include <cetl/pf17/optional.hpp>
#include <cetl/pf17/type_traits.hpp>
#include <cetl/pf17/variant.hpp>
#include <cetl/pf17/memory_resource.hpp>
#include <cetl/unbounded_variant.hpp>

#include <functional>
#include <type_traits>
#include <utility>

using namespace vh;
namespace
{
struct Boom
{};
std::vector<std::pair<const char*, int>> calls;
void                                     note(const char* f, int id) { calls.emplace_back(f, id); }

// clang-format off
#define CC_d(T) T(const T&) = delete;
#define CC_u(T) T(const T& o) : v(o.v) { note("cc", id); }
#define CC_n(T) T(const T& o) noexcept : v(o.v) { note("cc", id); }
#define CC_t(T) T(const T&) = default;
#define MC_a(T)
#define MC_d(T) T(T&&) = delete;
#define MC_u(T) T(T&& o) : v(o.v) { o.v = -1; note("mc", id); }
#define MC_n(T) T(T&& o) noexcept : v(o.v) { o.v = -1; note("mc", id); }
#define MC_t(T) T(T&&) = default;
#define CA_d(T) T& operator=(const T&) = delete;
#define CA_u(T) T& operator=(const T& o) { v = o.v; note("ca", id); return *this; }
#define CA_n(T) T& operator=(const T& o) noexcept { v = o.v; note("ca", id); return *this; }
#define CA_t(T) T& operator=(const T&) = default;
#define MA_a(T)
#define MA_d(T) T& operator=(T&&) = delete;
#define MA_u(T) T& operator=(T&& o) { v = o.v; o.v = -1; note("ma", id); return *this; }
#define MA_n(T) T& operator=(T&& o) noexcept { v = o.v; o.v = -1; note("ma", id); return *this; }
#define MA_t(T) T& operator=(T&&) = default;
#define DT_u(T) ~T() { note("dt", id); }
#define DT_t(T) ~T() = default;
#define DF_d(T)
#define DF_u(T) T() : v(0) {}
#define DF_n(T) T() noexcept : v(0) {}
#define SW_s(T)
#define SW_u(T) friend void swap(T& a, T& b) { std::swap(a.v, b.v); }
#define SW_n(T) friend void swap(T& a, T& b) noexcept { std::swap(a.v, b.v); }
#define SW_d(T) friend void swap(T& a, T& b) = delete;

template <int Id> struct Elem;
#define ROW(ID, CC, MC, CA, MA, DT, DF, SW) \
    template <> struct Elem<ID> \
    { \
        static constexpr int id = ID; \
        static std::string letters() \
        { \
            return J().str("cc", #CC).str("mc", #MC).str("ca", #CA).str("ma", #MA).str("dt", #DT).str("df", #DF).str("sw", #SW).done(); \
        } \
        int v; \
        constexpr explicit Elem(int x) : v(x) {} \
        explicit Elem(Boom) : v(0) { throw ElemError(); } \
        CC_##CC(Elem) MC_##MC(Elem) CA_##CA(Elem) MA_##MA(Elem) DT_##DT(Elem) DF_##DF(Elem) SW_##SW(Elem) \
    }; \
    constexpr int Elem<ID>::id;

ROW(1, t, t, t, t, t, n, s)   ROW(2, u, u, u, u, u, u, s)   ROW(3, n, n, n, n, u, n, s)
ROW(4, u, n, u, n, u, d, s)   ROW(5, d, n, d, n, u, n, s)   ROW(6, d, t, d, t, t, u, s)
ROW(7, u, a, u, a, u, n, s)   ROW(8, d, d, d, d, u, d, s)   ROW(9, d, d, d, d, t, n, s)
ROW(10, t, u, t, u, t, u, s)  ROW(11, u, t, u, t, t, n, s)  ROW(12, u, u, d, d, u, d, s)
ROW(13, t, t, d, d, t, n, s)  ROW(14, d, u, d, d, u, u, s)  ROW(15, t, t, u, u, t, n, s)
ROW(16, u, u, t, t, t, d, s)  ROW(17, t, t, t, t, u, n, s)  ROW(18, u, d, u, d, u, u, s)
ROW(19, d, d, u, u, t, n, s)  ROW(20, u, n, d, n, u, d, s)  ROW(21, n, u, n, u, u, n, s)
ROW(22, t, t, t, u, t, u, s)  ROW(23, t, t, u, t, t, n, s)  ROW(24, t, u, t, t, t, d, s)
ROW(25, u, t, t, t, t, n, s)  ROW(26, u, u, u, u, u, u, n)  ROW(27, n, n, n, n, t, n, u)
ROW(28, n, n, n, n, u, d, d)  ROW(29, n, a, n, a, t, n, s)
// clang-format on
constexpr int rows = 29;

template <bool B>
using Bool = std::integral_constant<bool, B>;
template <typename... E>
using Var = cetl::pf17::variant<E...>;
template <typename E>
using Opt = cetl::pf17::optional<E>;

// -- questions ----------------------------------------------------------------------------------------------------
template <typename W>
bool answer(const std::string& w, const std::string& q, std::true_type /*with swap and the like*/)
{
#define CETL_Q(W_, Q_, ...) \
    if (w == W_ && q == Q_) return __VA_ARGS__
    CETL_Q("triv", "cc", std::is_trivially_copy_constructible<W>::value);
    CETL_Q("triv", "mc", std::is_trivially_move_constructible<W>::value);
    CETL_Q("triv", "ca", std::is_trivially_copy_assignable<W>::value);
    CETL_Q("triv", "ma", std::is_trivially_move_assignable<W>::value);
    CETL_Q("triv", "dt", std::is_trivially_destructible<W>::value);
    CETL_Q("calm", "cc", std::is_nothrow_copy_constructible<W>::value);
    CETL_Q("calm", "mc", std::is_nothrow_move_constructible<W>::value);
    CETL_Q("calm", "ca", std::is_nothrow_copy_assignable<W>::value);
    CETL_Q("calm", "ma", std::is_nothrow_move_assignable<W>::value);
    CETL_Q("can", "df", std::is_default_constructible<W>::value);
    CETL_Q("calm", "df", std::is_nothrow_default_constructible<W>::value);
    CETL_Q("can", "sw", cetl::pf17::is_swappable_v<W>);
    CETL_Q("calm", "sw", cetl::pf17::is_nothrow_swappable_v<W>);
    CETL_Q("can", "swap", true);
    CETL_Q("calm", "swap", noexcept(std::declval<W&>().swap(std::declval<W&>())));
    bad_script("question " + w + " " + q);
}
template <typename W>
bool answer(const std::string& w, const std::string& q, std::false_type)
{
    bad_script("question " + w + " " + q);
}
template <typename W, typename More = std::true_type>
bool asked(const std::string& w, const std::string& q)
{
    CETL_Q("can", "cc", std::is_copy_constructible<W>::value);
    CETL_Q("can", "mc", std::is_move_constructible<W>::value);
    CETL_Q("can", "ca", std::is_copy_assignable<W>::value);
    CETL_Q("can", "ma", std::is_move_assignable<W>::value);
#undef CETL_Q
    return answer<W>(w, q, More{});
}

// -- use ----------------------------------------------------------------------------------------------------------
std::string seen(const std::vector<int>& xs)
{
    std::string o{"["};
    for (const auto& c : calls)
    {
        int t = 0;
        for (std::size_t k = 0; k < xs.size(); ++k) t = xs[k] == c.second ? static_cast<int>(k) + 1 : t;
        o += std::string(o.size() > 1 ? "," : "") + "[\"" + c.first + "\"," + std::to_string(t) + "]";
    }
    calls.clear();
    return o + "]";
}
std::string item(int i, int v) { return J().num("i", i).num("v", v).done(); }

template <typename E>
std::string obs(const Opt<E>& o) { return o.has_value() ? item(1, o->v) : item(0, 0); }
template <typename V, std::size_t I = 0>
std::enable_if_t<(I >= cetl::pf17::variant_size_v<V>), std::string> held(const V&) { return item(-1, 0); }
template <typename V, std::size_t I = 0>
std::enable_if_t<(I < cetl::pf17::variant_size_v<V>), std::string> held(const V& v)
{
    if (v.index() != I) return held<V, I + 1>(v);
    const auto* p = cetl::pf17::get_if<I>(&v);
    return p == nullptr ? item(-1, 0) : item(static_cast<int>(I) + 1, p->v);
}
template <typename... E>
std::string obs(const Var<E...>& v) { return v.valueless_by_exception() ? item(0, 0) : held(v); }

template <typename E>
void put(Opt<E>& o, long long i, int v)
{
    if (i != 1) bad_script("type");
    o.emplace(v);
}
template <std::size_t I, typename V, bool Ok = (I < cetl::pf17::variant_size_v<V>)>
struct PutAt
{
    static void at(V&, int) { bad_script("type"); }
};
template <std::size_t I, typename V>
struct PutAt<I, V, true>
{
    static void at(V& w, int v) { w.template emplace<I>(v); }
};
template <typename... E>
void put(Var<E...>& w, long long i, int v)
{
    if (i == 1) return PutAt<0, Var<E...>>::at(w, v);
    if (i == 2) return PutAt<1, Var<E...>>::at(w, v);
    bad_script("type");
}
template <typename E>
void clear(Opt<E>& o) { o.reset(); }
template <typename... E>
void clear(Var<E...>& v)
{
    try
    {
        v.template emplace<0>(Boom{});
    }
    catch (const ElemError&)
    {
    }
}
template <typename W>
struct First
{
    W w;
};
template <typename... E>
struct First<Var<E...>>
{
    Var<E...> w{cetl::pf17::in_place_index<0>, 0};
};
// the elements alone
namespace adl
{
using std::swap;
template <typename E, typename = void>
struct Swaps : std::false_type
{};
template <typename E>
struct Swaps<E, decltype(swap(std::declval<E&>(), std::declval<E&>()))> : std::is_move_constructible<E>
{};
}  // namespace adl
template <typename W>
struct CanSwap;
template <typename E>
struct CanSwap<Opt<E>> : Bool<adl::Swaps<E>::value>
{};
template <typename E>
struct CanSwap<Var<E>> : Bool<adl::Swaps<E>::value && std::is_move_assignable<E>::value>
{};
template <typename E, typename F>
struct CanSwap<Var<E, F>> : Bool<CanSwap<Var<E>>::value && CanSwap<Var<F>>::value>
{};

template <typename W>
void use(const std::vector<Op>& ops, const std::vector<int>& xs, std::true_type)
{
    First<W> one, two;
    W*       p[] = {nullptr, &one.w, &two.w};
    const auto slot = [&](long long s) -> W& {
        if (s != 1 && s != 2) bad_script("slot");
        return *p[s];
    };
    for (const auto& o : ops)
    {
        J j;
        j.str("op", o.name);
        calls.clear();
        if (o.name == "ask")
        {
            const bool a = asked<W>(o.w.at(0), o.w.at(1));
            emit(j.str("w", o.w[0]).str("q", o.w[1]).boolean("a", a));
            continue;
        }
        if (o.name == "put")
        {
            put(slot(o.at(0)), o.at(1), static_cast<int>(o.at(2)));
            j.num("s", o.at(0)).num("i", o.at(1)).num("v", o.at(2)).raw("log", seen(xs));
        }
        else if (o.name == "clear")
        {
            clear(slot(o.at(0)));
            j.num("s", o.at(0)).raw("log", seen(xs));
        }
        else if (o.name == "made")
        {
            W&          s = slot(o.at(0));
            std::string w{"0"}, log{"[]"};
            bool        did = false;
            if (o.w.at(1) == "cc")
            {
                did = when(Bool<std::is_copy_constructible<W>::value>{}, [&](auto id) {
                    W x(static_cast<const W&>(id(s)));
                    log = seen(xs), w = obs(x);
                });
            }
            else
            {
                did = when(Bool<std::is_move_constructible<W>::value>{}, [&](auto id) {
                    W x(std::move(id(s)));
                    log = seen(xs), w = obs(x);
                });
            }
            j.num("s", o.at(0)).str("f", o.w[1]).str("r", did ? "ok" : "absent").raw("w", w).raw("log", log).raw("end", seen(xs));
        }
        else if (o.name == "assign")
        {
            W&   d   = slot(o.at(0));
            W&   s   = slot(o.at(1));
            bool did = false;
            if (o.w.at(2) == "ca")
                did = when(Bool<std::is_copy_assignable<W>::value>{}, [&](auto id) { id(d) = static_cast<const W&>(s); });
            else
                did = when(Bool<std::is_move_assignable<W>::value>{}, [&](auto id) { id(d) = std::move(s); });
            j.num("d", o.at(0)).num("s", o.at(1)).str("f", o.w[2]).str("r", did ? "ok" : "absent").raw("log", seen(xs));
        }
        else if (o.name == "swap")
        {
            const bool did = when(Bool<CanSwap<W>::value>{}, [&](auto id) { id(one).w.swap(two.w); });
            j.str("r", did ? "ok" : "absent");
        }
        else
        {
            bad_script(o.name);
        }
        emit(j.raw("post", "[" + obs(one.w) + "," + obs(two.w) + "]"));
    }
    calls.clear();
}
template <typename W>
void use(const std::vector<Op>& ops, const std::vector<int>&, std::false_type)
{
    for (const auto& o : ops)
    {
        if (o.name != "ask") bad_script("not for use");
        const bool a = asked<W>(o.w.at(0), o.w.at(1));
        emit(J().str("op", o.name).str("w", o.w[0]).str("q", o.w[1]).boolean("a", a));
    }
}

using Go = void (*)(const std::vector<Op>&);
std::map<std::string, Go> table;
void                      conf(const char* k, const std::string& ts, bool c = false, bool m = false)
{
    emit(J().str("op", "cfg").str("k", k).raw("ts", "[" + ts + "]").boolean("c", c).boolean("m", m));
}
#if GROUP == 0
template <int I>
void fill(Bool<true>)
{
    table["opt " + std::to_string(I)] = [](const std::vector<Op>& ops) {
        conf("opt", Elem<I>::letters());
        use<Opt<Elem<I>>>(ops, {I}, std::true_type{});
    };
    table["var " + std::to_string(I)] = [](const std::vector<Op>& ops) {
        conf("var", Elem<I>::letters());
        use<Var<Elem<I>>>(ops, {I}, std::true_type{});
    };
}
template <bool C, bool M>
void erased()
{
    table[std::string("uvar ") + (C ? "1" : "0") + (M ? "1" : "0")] = [](const std::vector<Op>& ops) {
        conf("uvar", Elem<1>::letters(), C, M);
        for (const auto& o : ops)
        {
            if (o.name != "ask") bad_script("not for use");
            // with and without memory resource: a disagreement is no answer
            const bool a = asked<cetl::unbounded_variant<16, C, M>, std::false_type>(o.w.at(0), o.w.at(1));
            const bool b = asked<cetl::unbounded_variant<0, C, M, alignof(std::max_align_t), cetl::pf17::pmr::memory_resource>, std::false_type>(o.w[0], o.w[1]);
            const bool d = asked<cetl::unbounded_variant<16, C, M, alignof(std::max_align_t), cetl::pf17::pmr::memory_resource>, std::false_type>(o.w[0], o.w[1]);
            J          j;
            j.str("op", o.name).str("w", o.w[0]).str("q", o.w[1]);
            emit(a == b && b == d ? j.boolean("a", a) : j.str("a", "differs"));
        }
    };
}
#else
constexpr int fars[] = {FARS};
constexpr bool is_far(int d, std::size_t k = 0) { return k < sizeof(fars) / sizeof(fars[0]) && (fars[k] == d || is_far(d, k + 1)); }
template <int I, int K>
void fill_pair(Bool<true>)
{
    table["var " + std::to_string(I) + " " + std::to_string(K)] = [](const std::vector<Op>& ops) {
        conf("var", Elem<I>::letters() + "," + Elem<K>::letters());
        use<Var<Elem<I>, Elem<K>>>(ops, {I, K}, Bool<is_far((K + rows - I) % rows)>{});
    };
}
template <int I, int K>
void fill_pair(Bool<false>) {}
template <int I, int... Ks>
void fill_pairs(std::integer_sequence<int, Ks...>)
{
    int d[] = {(fill_pair<I, Ks + 1>(Bool<I != Ks + 1>{}), 0)...};
    (void) d;
}
template <int I>
void fill(Bool<true>) { fill_pairs<I>(std::make_integer_sequence<int, rows>{}); }
#endif
template <int I>
void fill(Bool<false>) {}
template <int... Is>
void all(std::integer_sequence<int, Is...>)
{
    int d[] = {(fill<Is + 1>(Bool<(GROUP == 0 || Is % 4 == GROUP - 1)>{}), 0)...};
    (void) d;
}

void history(const Op& head, const std::vector<Op>& ops)
{
    if (table.empty())
    {
        all(std::make_integer_sequence<int, rows>{});
#if GROUP == 0
        erased<false, false>(), erased<false, true>(), erased<true, false>(), erased<true, true>();
#endif
    }
    std::string key;
    for (const auto& w : head.w) key += (key.empty() ? "" : " ") + w;
    const auto it = table.find(key);
    if (it == table.end()) bad_script("no such type: " + key);
    it->second(ops);
}
}  // namespace

int main(int argc, char** argv) { return drive(argc, argv, history); }
