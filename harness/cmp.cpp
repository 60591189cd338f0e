// Compares optionals, values and variants. Value types are chosen by the history header, which also gives the
// answers of the operators of the table-driven ones.
#include "common.hpp"

#include "cetl/pf17/optional.hpp"
#include "cetl/pf17/variant.hpp"

#include <cmath>
#include <limits>
#include <memory>
#include <tuple>
#include <type_traits>
#include <utility>

using namespace vh;
using cetl::pf17::monostate;
using cetl::pf17::nullopt;
using cetl::pf17::optional;
using cetl::pf17::variant;

namespace
{
std::string answers;  // operator, pair of types, left, right

struct Truth  // what an operator may return instead of bool
{
    bool b;
    operator bool() const { return b; }
};

template <int T, typename R>
struct Tab
{
    int v;
    explicit Tab(int x) : v(x) {}
    Tab(const Tab&)            = default;
    Tab& operator=(const Tab&) = default;
};
bool answer(int o, int t, int v, int u, int w)
{
    return answers.at(static_cast<std::size_t>(((o * 4 + 2 * (t - 1) + u - 1) * 3 + v) * 3 + w)) == '1';
}
#define OPERATOR(n, o)                                      \
    template <int T, int U, typename R>                     \
    R operator o(const Tab<T, R>& x, const Tab<U, R>& y)    \
    {                                                       \
        return R{answer(n, T, x.v, U, y.v)};                \
    }
OPERATOR(0, ==)
OPERATOR(1, !=)
OPERATOR(2, <)
OPERATOR(3, <=)
OPERATOR(4, >)
OPERATOR(5, >=)

template <typename T>
struct Made
{
    static T   of(int v) { return T(v); }
    static int val(const T& x) { return x.v; }
};
template <typename T>
struct Ints
{
    static T   of(int v) { return static_cast<T>(v == 0 ? std::numeric_limits<T>::lowest() : v == 1 ? 0 : 7); }
    static int val(const T& x) { return x == 0 ? 1 : x == 7 ? 2 : 0; }
};
template <>
struct Made<int> : Ints<int> {};
template <>
struct Made<long> : Ints<long> {};
template <typename T>
struct Floats
{
    static T   of(int v) { return v == 0 ? T(-1.5) : v == 1 ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::quiet_NaN(); }
    static int val(const T& x) { return std::isnan(x) ? 2 : x > 0 ? 1 : 0; }
};
template <>
struct Made<double> : Floats<double> {};
template <>
struct Made<float> : Floats<float> {};
template <>
struct Made<monostate>
{
    static monostate of(int) { return {}; }
    static int       val(const monostate&) { return 0; }
};

template <typename L, typename R>
std::vector<int> six(L& l, R& r)
{
    return {static_cast<bool>(l == r), static_cast<bool>(l != r), static_cast<bool>(l < r), static_cast<bool>(l <= r), static_cast<bool>(l > r), static_cast<bool>(l >= r)};
}
std::vector<int> both(std::vector<int> x, const std::vector<int>& y)
{
    x.insert(x.end(), y.begin(), y.end());
    return x;
}
std::string bools(const std::vector<int>& x)
{
    std::string o{"["};
    for (int b : x) o += std::string(o.size() > 1 ? "," : "") + (b != 0 ? "true" : "false");
    return o + "]";
}

struct Last  // an alternative that cannot be made: the attempt leaves the variant valueless
{
    explicit Last(int) { throw std::runtime_error("value"); }
    Last(const Last&) { throw std::runtime_error("value"); }
    Last& operator=(const Last&) { return *this; }
};
#define NEVER(o) \
    inline bool operator o(const Last&, const Last&) { return true; }
NEVER(==) NEVER(!=) NEVER(<) NEVER(<=) NEVER(>) NEVER(>=)

// values with some of the operators: K = 0..5 only that one, 6 none, 7 all, 8 all but their results are no truth values
struct Unclear
{
    int n;
};
template <int K, int T>
struct Some
{
};
#define SOME(n, o)                                                                                \
    template <int K, int T, int U, std::enable_if_t<K == n || K == 7, int> = 0>                   \
    bool operator o(const Some<K, T>&, const Some<K, U>&) { return true; }                        \
    template <int T, int U>                                                                       \
    Unclear operator o(const Some<8, T>&, const Some<8, U>&) { return {0}; }                      \
    template <typename L, typename R, typename = void> struct Has##n : std::false_type            \
    {                                                                                             \
    };                                                                                            \
    template <typename L, typename R>                                                             \
    struct Has##n<L, R, std::enable_if_t<std::is_convertible<decltype(std::declval<const L&>() o std::declval<const R&>()), bool>::value>> : std::true_type \
    {                                                                                             \
    };
SOME(0, ==)
SOME(1, !=)
SOME(2, <)
SOME(3, <=)
SOME(4, >)
SOME(5, >=)
template <typename L, typename R>
std::vector<int> has()
{
    return {Has0<L, R>::value, Has1<L, R>::value, Has2<L, R>::value, Has3<L, R>::value, Has4<L, R>::value, Has5<L, R>::value};
}
template <int K, int U>
void has(int k, long long form, std::vector<int>& own, std::vector<int>& r)
{
    if (k != K) return;
    using L = Some<K, 1>;
    using R = Some<K, U>;
    own     = has<L, R>();
    r       = form == 1 ? has<optional<L>, optional<R>>() : form == 2 ? has<optional<L>, R>() : has<L, optional<R>>();
}

template <typename A, typename B, typename... Ts>
struct Run
{
    using V                        = variant<Ts..., Last>;
    static constexpr std::size_t N = sizeof...(Ts);
    struct Cell
    {
        int                k{0};
        optional<A>        a;
        optional<B>        b;
        std::unique_ptr<V> v;
    };
    std::vector<Cell> cell;

    template <typename T>
    static constexpr int type() { return std::is_same<T, A>::value ? 1 : std::is_same<T, B>::value ? 2 : 0; }
    template <typename F, std::size_t... I>
    static void each(F&& f, std::index_sequence<I...>)
    {
        int d[] = {(f(std::integral_constant<std::size_t, I>{}), 0)...};
        (void) d;
    }
    void lose(Cell& c)
    {
        try
        {
            c.v->template emplace<N>(0);
        }
        catch (const std::runtime_error&)
        {
        }
    }
    template <typename L, typename R>
    static std::string tab(int o)
    {
        std::string t{"["};
        for (int v = 0; v < 3; ++v)
        {
            std::vector<int> row;
            for (int w = 0; w < 3; ++w)
            {
                const L l = Made<L>::of(v);
                const R r = Made<R>::of(w);
                row.push_back(six(l, r)[static_cast<std::size_t>(o)]);
            }
            t += (v > 0 ? "," : "") + bools(row);
        }
        return t + "]";
    }
    explicit Run(const Op& hdr)
    {
        const std::string shape = hdr.w.at(1);
        cell.resize(shape.size() + 1);
        std::vector<int> k;
        for (std::size_t s = 0; s < shape.size(); ++s)
        {
            k.push_back(cell[s + 1].k = shape[s] - '0');
            if (k.back() == 0)
            {
                cell[s + 1].v = std::make_unique<V>(cetl::pf17::in_place_index_t<0>{}, Made<cetl::pf17::variant_alternative_t<0, V>>::of(0));
                lose(cell[s + 1]);
            }
        }
        std::string t;
        for (int o = 0; o < 6; ++o) t += (o > 0 ? ",[" : "[") + tab<A, A>(o) + "," + tab<A, B>(o) + "," + tab<B, A>(o) + "," + tab<B, B>(o) + "]";
        J c;
        emit(c.str("op", "cfg").list("kind", k).list("altt", std::vector<int>{type<Ts>()...}).raw("tab", "[" + t + "]"));
    }
    std::string obs(Cell& c)
    {
        long long i = 0, v = 0;
        if (c.k == 1 && c.a) i = 1, v = Made<A>::val(*c.a);
        if (c.k == 2 && c.b) i = 1, v = Made<B>::val(*c.b);
        if (c.k == 0 && !c.v->valueless_by_exception())
        {
            i = static_cast<long long>(c.v->index()) + 1;
            each([&](auto x) {
                constexpr std::size_t I = decltype(x)::value;
                if (const auto* p = cetl::pf17::get_if<I>(c.v.get())) v = Made<std::decay_t<decltype(*p)>>::val(*p);
            }, std::make_index_sequence<N>{});
        }
        return J().num("i", i).num("v", v).done();
    }
    template <typename O>
    std::vector<int> against(O& o, int t, int v)
    {
        if (t == 1)
        {
            A x = Made<A>::of(v);
            return both(six(o, x), six(x, o));
        }
        const B x = Made<B>::of(v);
        return both(six(o, x), six(x, o));
    }
    void step(const Op& q)
    {
        const std::string& n = q.name;
        if (n == "has")  // operators form
        {
            std::vector<int> own, r;
            each([&](auto k) { has<static_cast<int>(decltype(k)::value), 1>(static_cast<int>(q.at(0)), q.at(1), own, r); }, std::make_index_sequence<9>{});
            if (q.at(2)) each([&](auto k) { has<static_cast<int>(decltype(k)::value), 2>(static_cast<int>(q.at(0)), q.at(1), own, r); }, std::make_index_sequence<9>{});
            return record(q, r, own);
        }
        for (std::size_t k = 0; k < (n == "cmp" ? 2U : 1U); ++k)
        {
            if (q.at(k) < 1 || q.at(k) >= static_cast<long long>(cell.size())) bad_script("slot");
        }
        Cell&            c = cell[static_cast<std::size_t>(q.at(0))];
        std::vector<int> r;
        if (n == "put")
        {
            const int v = static_cast<int>(q.at(2));
            if (c.k != 0 && q.at(1) != 1) return;
            if (c.k == 1) c.a = Made<A>::of(v);
            if (c.k == 2) c.b = Made<B>::of(v);
            if (c.k == 0)
            {
                if (q.at(1) > static_cast<long long>(N)) return;
                each([&](auto x) {
                    constexpr std::size_t I = decltype(x)::value;
                    if (q.at(1) == static_cast<long long>(I) + 1) c.v->template emplace<I>(Made<cetl::pf17::variant_alternative_t<I, V>>::of(v));
                }, std::make_index_sequence<N>{});
            }
        }
        else if (n == "clear")
        {
            if (c.k == 1) c.a = nullopt;
            if (c.k == 2) c.b.reset();
            if (c.k == 0) lose(c);
        }
        else if (n == "cmp")
        {
            Cell& d = cell[static_cast<std::size_t>(q.at(1))];
            if ((c.k == 0) != (d.k == 0)) return;
            if (c.k == 0) r = six(*c.v, *d.v);
            if (c.k == 1 && d.k == 1) r = six(c.a, d.a);
            if (c.k == 1 && d.k == 2) r = six(c.a, static_cast<const optional<B>&>(d.b));
            if (c.k == 2 && d.k == 1) r = six(static_cast<const optional<B>&>(c.b), d.a);
            if (c.k == 2 && d.k == 2) r = six(c.b, d.b);
        }
        else if (n == "cmpv")
        {
            if (c.k == 0) return;
            r = c.k == 1 ? against(c.a, static_cast<int>(q.at(1)), static_cast<int>(q.at(2)))
                         : against(c.b, static_cast<int>(q.at(1)), static_cast<int>(q.at(2)));
        }
        else if (n == "cmpn")
        {
            if (c.k == 0) return;
            r = c.k == 1 ? both(six(c.a, nullopt), six(nullopt, c.a)) : both(six(c.b, nullopt), six(nullopt, c.b));
        }
        else
        {
            bad_script(n);
        }
        record(q, r, {});
    }
    void record(const Op& q, const std::vector<int>& r, const std::vector<int>& own)
    {
        std::string post{"["};
        for (std::size_t k = 1; k < cell.size(); ++k) post += (k > 1 ? "," : "") + obs(cell[k]);
        emit(J().str("op", q.name).list("a", q.a).raw("r", bools(r)).raw("own", bools(own)).raw("post", post + "]"));
    }
};

template <typename A, typename B, typename... Ts>
void run(const Op& hdr, const std::vector<Op>& ops)
{
    Run<A, B, Ts...> r(hdr);
    for (const auto& o : ops) r.step(o);
}
void history(const Op& hdr, const std::vector<Op>& ops)
{
    using X = Tab<1, bool>;
    using Y = Tab<2, bool>;
    using P = Tab<1, Truth>;
    using Q = Tab<2, Truth>;
    answers = hdr.w.size() > 2 ? hdr.w[2] : std::string{};
    if (answers.size() != 6 * 4 * 9) bad_script("answers");
    switch (hdr.at(0))
    {
    case 1: return run<X, Y, X, monostate, Y, X>(hdr, ops);
    case 2: return run<P, Q, P, monostate, Q, P>(hdr, ops);
    case 3: return run<int, long, int, monostate, long, int>(hdr, ops);
    case 4: return run<double, float, double, monostate, float, double>(hdr, ops);
    case 5: return run<X, Y, X, Y, X, Y, X, Y, X, Y, X>(hdr, ops);
    case 6: return run<X, Y, Y>(hdr, ops);
    default: bad_script("types");
    }
}
}  // namespace

int main(int argc, char** argv) { return drive(argc, argv, history); }
