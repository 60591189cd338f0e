// Converts values of many types into variants. The lists of alternatives are in the file named by LISTS:
// LIST(number, alternatives...).
#include "common.hpp"

#include "cetl/pf17/variant.hpp"

#include <array>
#include <tuple>
#include <type_traits>
#include <utility>

using namespace vh;
using cetl::pf17::variant;

namespace
{
struct Obj  // knows which object it is; assigning to it does not change that
{
    int              v;
    int              b;
    static int&      last() { static int n = 0; return n; }
    explicit Obj(int x) : v(x), b(++last()) {}
    Obj(const Obj& o) : v(o.v), b(++last()) {}
    Obj& operator=(const Obj& o) { return v = o.v, *this; }
};
using b = bool;
using c = char;
using s = short;
using i = int;
using u = unsigned;
using l = long;
using ul = unsigned long;
using f = float;
using d = double;
using p = const char*;
const char text[] = "................";

struct ci : Obj { ci(int x) : Obj(x) {} };
struct cd : Obj { cd(double x) : Obj(static_cast<int>(x)) {} };
struct cb : Obj { cb(bool x) : Obj(x ? 1 : 0) {} };
struct as : Obj
{
    as(int x) : Obj(x) {}
    as(const as&) = default;
    as& operator=(const as&) = default;
    as& operator=(int) = delete;
};
struct cs : Obj { cs(const char* x) : Obj(static_cast<int>(x - text)) {} };
struct xi : Obj { explicit xi(int x) : Obj(x) {} };
struct ob : Obj { explicit ob(const Obj& x) : Obj(x) {} };
struct od : ob { explicit od(const Obj& x) : ob(x) {} };
struct ag { int v; };
struct mo : Obj
{
    explicit mo(const Obj& x) : Obj(x) {}
    mo(mo&& o) : Obj(o) {}
    mo& operator=(mo&& o) { return v = o.v, *this; }
};
struct ti : Obj
{
    explicit ti(const Obj& x) : Obj(x) {}
    operator int() const { return v; }
};

template <typename T, typename = void>
struct Of
{
    static T   made(int v) { return T(Obj(v)); }
    static int val(const T& x) { return x.v; }
    static int num(const T& x) { return x.b; }
};
template <typename T>
struct Of<T, std::enable_if_t<std::is_arithmetic<T>::value>>
{
    static T   made(int v) { return static_cast<T>(v); }
    static int val(const T& x) { return static_cast<int>(x); }
    static int num(const T&) { return 0; }
};
template <typename T>
struct FromInt
{
    static T   made(int v) { return T(v); }
    static int val(const T& x) { return x.v; }
    static int num(const T& x) { return x.b; }
};
template <> struct Of<ci> : FromInt<ci> {};
template <> struct Of<cd> : FromInt<cd> {};
template <> struct Of<as> : FromInt<as> {};
template <> struct Of<xi> : FromInt<xi> {};
template <> struct Of<cb> : FromInt<cb> { static cb made(int v) { return cb(v != 0); } };
template <> struct Of<cs> : FromInt<cs> { static cs made(int v) { return cs(text + v); } };
template <> struct Of<ag>
{
    static ag  made(int v) { return ag{v}; }
    static int val(const ag& x) { return x.v; }
    static int num(const ag&) { return 0; }
};
template <> struct Of<p>
{
    static p   made(int v) { return text + v; }
    static int val(p x) { return static_cast<int>(x - text); }
    static int num(p) { return 0; }
};
struct Id
{
    template <typename X> X&& operator()(X&& x) const { return std::forward<X>(x); }
};
template <typename F> bool when(std::true_type, F&& f) { return f(Id{}), true; }
template <typename F> bool when(std::false_type, F&&) { return false; }
template <bool B> using Bool = std::integral_constant<bool, B>;

template <typename T> struct Name;
#define NAME(x) \
    template <> struct Name<x> { static const char* name() { return #x; } };
NAME(b) NAME(c) NAME(s) NAME(i) NAME(u) NAME(l) NAME(ul) NAME(f) NAME(d) NAME(p) NAME(ci) NAME(cd) NAME(cb) NAME(as) NAME(cs) NAME(xi) NAME(ob)
    NAME(od) NAME(ag) NAME(mo) NAME(ti)

// The variant, its slot and what is common to all lists.
template <typename... Ts>
struct Run
{
    using V                        = variant<Ts...>;
    static constexpr std::size_t N = sizeof...(Ts);
    template <std::size_t I> using At = std::tuple_element_t<I, std::tuple<Ts...>>;
    alignas(V) unsigned char raw[sizeof(V)];
    V*   v{nullptr};
    bool same{true}, alike{true};

    Run()
    {
        Obj::last() = 0;
        std::vector<std::string> n{Name<Ts>::name()...};
        std::string              o;
        for (const auto& x : n) o += (o.empty() ? "[\"" : ",\"") + x + "\"";
        emit(J().str("op", "cfg").raw("alts", o + "]"));
    }
    ~Run() { clear(); }
    void clear()
    {
        if (v != nullptr) v->~V();
        v = nullptr;
    }
    template <typename T, typename... Us> struct Times : std::integral_constant<int, 0> {};
    template <typename T, typename U, typename... Us>
    struct Times<T, U, Us...> : std::integral_constant<int, (std::is_same<T, U>::value ? 1 : 0) + Times<T, Us...>::value> {};

    template <typename F, std::size_t... I>
    static void each(F&& fn, std::index_sequence<I...>)
    {
        int x[] = {(fn(std::integral_constant<std::size_t, I>{}), 0)...};
        (void) x;
    }
    std::string obs()
    {
        int x = 0, n = 0;
        if (v == nullptr) return J().num("i", 0).num("v", 0).num("b", 0).done();
        each([&](auto k) {
            constexpr std::size_t I = decltype(k)::value;
            auto*                 q = cetl::pf17::get_if<I>(v);
            if (q != nullptr) x = Of<At<I>>::val(*q), n = Of<At<I>>::num(*q);
            when(Bool<Times<At<I>, Ts...>::value == 1>{}, [&](auto e) {
                using T = std::tuple_element_t<std::decay_t<decltype(e(k))>::value, std::tuple<Ts...>>;
                same    = same && cetl::pf17::get_if<T>(v) == q && cetl::pf17::holds_alternative<T>(*v) == (q != nullptr);
            });
        }, std::make_index_sequence<N>{});
        return J().num("i", v->valueless_by_exception() ? -1 : static_cast<int>(v->index()) + 1).num("v", x).num("b", n).done();
    }
    template <typename U>
    bool make(U&& from)
    {
        alike = std::is_convertible<U, V>::value == std::is_constructible<V, U>::value;
        return when(Bool<std::is_constructible<V, U>::value>{}, [&](auto e) {
            clear();
            v = new (raw) V(std::forward<U>(e(from)));
        });
    }
    template <typename U>
    bool assign(U&& from)
    {
        return when(Bool<std::is_assignable<V&, U>::value>{}, [&](auto e) {
            V& r = (*v = std::forward<U>(e(from)));
            same = same && &r == v;
        });
    }
    template <typename S>
    bool convert(bool makes, const std::string& cat, int x)
    {
        S source = Of<S>::made(x);
        if (cat == "r") return makes ? make<S>(std::move(source)) : assign<S>(std::move(source));
        if (cat == "l") return makes ? make<S&>(source) : assign<S&>(source);
        return makes ? make<const S&>(source) : assign<const S&>(source);
    }
    bool convert(bool makes, const std::string& type, const std::string& cat, int x)
    {
#define SOURCE(t) \
    if (type == #t) return convert<t>(makes, cat, x);
        SOURCE(b) SOURCE(c) SOURCE(s) SOURCE(i) SOURCE(u) SOURCE(l) SOURCE(ul) SOURCE(f) SOURCE(d) SOURCE(p) SOURCE(ci) SOURCE(cd) SOURCE(cb)
        SOURCE(as) SOURCE(cs) SOURCE(xi) SOURCE(ob) SOURCE(od) SOURCE(ag) SOURCE(mo) SOURCE(ti)
        bad_script("type");
    }
    // make/assign type category value; put alternative - value
    void step(const Op& q)
    {
        const bool makes = q.name == "make";
        const int  x     = static_cast<int>(q.at(2));
        J          j;
        same = alike = true;
        if (makes || q.name == "assign")
        {
            if (!makes && v == nullptr) return;
            const bool ok = convert(makes, q.w.at(0), q.w.at(1), x);
            j.str("op", q.name).str("x", q.w.at(0)).str("c", q.w.at(1)).num("v", x).boolean("ok", ok);
        }
        else if (q.name == "put")
        {
            each([&](auto k) {
                constexpr std::size_t I = decltype(k)::value;
                if (static_cast<long long>(I) + 1 != q.at(0)) return;
                const bool typed = v != nullptr && when(Bool<Times<At<I>, Ts...>::value == 1>{}, [&](auto e) {
                    using T = std::tuple_element_t<std::decay_t<decltype(e(k))>::value, std::tuple<Ts...>>;
                    (*v).template emplace<T>(Of<T>::made(x));
                });
                if (!typed)
                {
                    clear();
                    v = new (raw) V(cetl::pf17::in_place_index_t<I>{}, Of<At<I>>::made(x));
                }
            }, std::make_index_sequence<N>{});
            j.str("op", "put").num("j", q.at(0)).num("v", x);
        }
        else
        {
            bad_script(q.name);
        }
        const std::string post = obs();
        emit(j.boolean("same", same).boolean("alike", alike).raw("post", post));
    }
};
template <typename... Ts>
void run(const std::vector<Op>& ops)
{
    Run<Ts...> r;
    for (const auto& o : ops) r.step(o);
}
void history(const Op& hdr, const std::vector<Op>& ops)
{
#define LIST(n, ...) \
    case n: return run<__VA_ARGS__>(ops);
    switch (hdr.at(0))
    {
#include LISTS
    default: bad_script("list");
    }
}
}  // namespace

int main(int argc, char** argv) { return drive(argc, argv, history); }
