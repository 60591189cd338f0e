// Visits variants of a fixed pool in all value categories.
#include "alts.hpp"

#include "cetl/pf17/variant.hpp"
#include "cetl/visit_helpers.hpp"

#include <memory>

using namespace vh;
using cetl::make_overloaded;
using cetl::pf17::bad_variant_access;
using cetl::pf17::get_if;
using cetl::pf17::variant;

namespace
{
using T1 = Alt<1, true, false>;
using T2 = Alt<2, true, true>;
using T3 = Triv<3>;
using T4 = Triv<4>;
using T5 = MovAlt<5>;
using V1 = variant<T1, T2, T3>;
using V2 = variant<T1, T4>;
using V3 = variant<T5>;
using V4 = variant<T1, Triv<6>, T2, Triv<7>, Triv<8>, Triv<9>, Triv<10>, T3, T4>;

// value categories
struct L { template <typename T> using Of = T&;        static const char* name() { return "l"; } };
struct C { template <typename T> using Of = const T&;  static const char* name() { return "cl"; } };
struct R { template <typename T> using Of = T&&;       static const char* name() { return "r"; } };
struct K { template <typename T> using Of = const T&&; static const char* name() { return "cr"; } };
template <typename X>
const char* category()
{
    using N            = std::remove_reference_t<X>;
    constexpr bool cst = std::is_const<N>::value;
    return std::is_lvalue_reference<X>::value ? (cst ? "cl" : "l") : (cst ? "cr" : "r");
}

struct Given
{
    const void* at;
    int         type;
    int         value;
    std::string cat;
};
struct Log
{
    int                calls{0};
    std::vector<Given> given;
    std::string        self;
};
Log         seen;
std::string mode;
int         word{0};

template <typename T>
int taken(T&& x, std::true_type)
{
    std::decay_t<T> y(std::move(x));
    return val(y);
}
template <typename T>
int taken(T&&, std::false_type) { return 0; }
template <typename T>
void put(T& x, int w, std::true_type) { x.v = w; }
template <typename T>
void put(T&, int, std::false_type) {}

template <typename X>
void meet(X&& x)
{
    seen.given.push_back({&x, SourceOf<std::decay_t<X>>::value, val(x), category<X&&>()});
}
template <typename... X>
void met(const char* self, X&&... x)
{
    ++seen.calls;
    seen.self = self;
    int d[]   = {(meet(std::forward<X>(x)), 0)...};
    (void) d;
    if (mode == "write")
    {
        int e[] = {(put(x, word, Bool<!std::is_const<std::remove_reference_t<X>>::value>{}), 0)...};
        (void) e;
    }
    if (mode == "throw") throw ElemError();
    if (mode == "take")
    {
        int e[] = {taken(std::forward<X>(x), Bool<!std::is_const<std::remove_reference_t<X>>::value && !std::is_lvalue_reference<X>::value>{})...};
        (void) e;
    }
}
// called with its own value category
struct Value
{
    template <typename... X> int operator()(X&&... x) & { return met("l", std::forward<X>(x)...), word; }
    template <typename... X> int operator()(X&&... x) const& { return met("cl", std::forward<X>(x)...), word; }
    template <typename... X> int operator()(X&&... x) && { return met("r", std::forward<X>(x)...), word; }
};
struct Owned  // the result can only be moved
{
    template <typename... X> std::unique_ptr<int> operator()(X&&... x) & { return met("l", std::forward<X>(x)...), std::make_unique<int>(word); }
    template <typename... X> std::unique_ptr<int> operator()(X&&... x) const& { return met("cl", std::forward<X>(x)...), std::make_unique<int>(word); }
    template <typename... X> std::unique_ptr<int> operator()(X&&... x) && { return met("r", std::forward<X>(x)...), std::make_unique<int>(word); }
};
struct Silent
{
    template <typename... X> void operator()(X&&... x) & { met("l", std::forward<X>(x)...); }
    template <typename... X> void operator()(X&&... x) const& { met("cl", std::forward<X>(x)...); }
    template <typename... X> void operator()(X&&... x) && { met("r", std::forward<X>(x)...); }
};
struct Member  // the result refers into the first argument
{
    template <typename X, typename... Y> auto operator()(X&& x, Y&&... y) & -> decltype((std::declval<X&&>().v)) { return met("l", std::forward<X>(x), std::forward<Y>(y)...), static_cast<decltype((std::declval<X&&>().v))>(x.v); }
    template <typename X, typename... Y> auto operator()(X&& x, Y&&... y) const& -> decltype((std::declval<X&&>().v)) { return met("cl", std::forward<X>(x), std::forward<Y>(y)...), static_cast<decltype((std::declval<X&&>().v))>(x.v); }
    template <typename X, typename... Y> auto operator()(X&& x, Y&&... y) && -> decltype((std::declval<X&&>().v)) { return met("r", std::forward<X>(x), std::forward<Y>(y)...), static_cast<decltype((std::declval<X&&>().v))>(x.v); }
};

// callables of overload sets: type (0: template) and form of each parameter
template <int T> struct Ty;
template <> struct Ty<1> { using T = T1; };
template <> struct Ty<2> { using T = T2; };
template <> struct Ty<3> { using T = T3; };
template <> struct Ty<4> { using T = T4; };
template <int T, char F> struct Par;
template <int T> struct Par<T, 'c'> { using P = const typename Ty<T>::T&; };
template <int T> struct Par<T, 'l'> { using P = typename Ty<T>::T&; };
template <int T> struct Par<T, 'r'> { using P = typename Ty<T>::T&&; };
template <int T, char F> struct H
{
    int id;
    int operator()(typename Par<T, F>::P) const { return ++seen.calls, id; }
};
template <> struct H<0, 'c'>
{
    int id;
    template <typename X> int operator()(const X&) const { return ++seen.calls, id; }
};
template <> struct H<0, 'u'>
{
    int id;
    template <typename X> int operator()(X&&) const { return ++seen.calls, id; }
};
template <int T, char F, int U, char G> struct H2
{
    int id;
    int operator()(typename Par<T, F>::P, typename Par<U, G>::P) const { return ++seen.calls, id; }
};
template <int T, char F> struct H2<T, F, 0, 'c'>
{
    int id;
    template <typename X> int operator()(typename Par<T, F>::P, const X&) const { return ++seen.calls, id; }
};
template <int U, char G> struct H2<0, 'c', U, G>
{
    int id;
    template <typename X> int operator()(const X&, typename Par<U, G>::P) const { return ++seen.calls, id; }
};
template <> struct H2<0, 'c', 0, 'c'>
{
    int id;
    template <typename X, typename Y> int operator()(const X&, const Y&) const { return ++seen.calls, id; }
};
template <> struct H2<0, 'u', 0, 'u'>
{
    int id;
    template <typename X, typename Y> int operator()(X&&, Y&&) const { return ++seen.calls, id; }
};
std::string par(int t, char f) { return "{\"t\":" + std::to_string(t) + ",\"f\":\"" + f + "\"}"; }
template <int T, char F> std::string desc(const H<T, F>&) { return "[" + par(T, F) + "]"; }
template <int T, char F, int U, char G> std::string desc(const H2<T, F, U, G>&) { return "[" + par(T, F) + "," + par(U, G) + "]"; }
template <typename... Hs>
struct Set
{
    std::tuple<Hs...>  hs;
    static std::string describe()
    {
        std::string              o;
        std::vector<std::string> d{desc(Hs{0})...};
        for (const auto& x : d) o += (o.empty() ? "[" : ",") + x;
        return o + "]";
    }
};
using Set1 = Set<H<1, 'c'>, H<0, 'c'>>;
using Set2 = Set<H<1, 'l'>, H<1, 'r'>, H<0, 'u'>>;
using Set3 = Set<H<1, 'c'>, H<1, 'l'>, H<1, 'r'>, H<0, 'c'>>;
using Set4 = Set<H<0, 'u'>, H<2, 'c'>>;
using Set5 = Set<H<0, 'c'>, H<0, 'u'>, H<3, 'l'>>;
using Set6 = Set<H2<1, 'c', 0, 'c'>, H2<0, 'c', 4, 'c'>, H2<1, 'c', 4, 'c'>, H2<0, 'c', 0, 'c'>>;
using Set7 = Set<H2<0, 'u', 0, 'u'>, H2<1, 'l', 0, 'c'>, H2<1, 'l', 4, 'l'>>;

template <typename... Hs, std::size_t... I>
auto build(const Set<Hs...>&, bool lvalues, std::index_sequence<I...>)
{
    std::tuple<Hs...> t{Hs{static_cast<int>(I) + 1}...};
    return lvalues ? make_overloaded(std::get<I>(t)...) : make_overloaded(Hs{static_cast<int>(I) + 1}...);
}

struct Pool
{
    V1* a;
    V2* b;
    V3* c;
    V4* d;
};
Pool pool;

template <typename F>
void slot(int s, F&& f)
{
    switch (s)
    {
    case 1: return f(*pool.a);
    case 2: return f(*pool.b);
    case 3: return f(*pool.c);
    default: bad_script("slot");
    }
}
template <typename F>
void any_slot(int s, F&& f)
{
    s == 4 ? f(*pool.d) : slot(s, f);
}
template <typename F>
void cat(const std::string& c, F&& f)
{
    if (c == "l") return f(L{});
    if (c == "cl") return f(C{});
    if (c == "r") return f(R{});
    if (c == "cr") return f(K{});
    bad_script("category");
}
// two of the categories
template <typename A, typename B, typename F>
bool either(const std::string& c, F&& f)
{
    if (c == A::name()) return f(A{}), true;
    if (c == B::name()) return f(B{}), true;
    return false;
}
template <typename Cat, typename V>
typename Cat::template Of<V> as(V& v) { return static_cast<typename Cat::template Of<V>>(v); }

struct Result
{
    std::string r{"ok"}, want;
    int         ret{0};
    bool        exact{true}, ref{true};
};

template <typename V>
int* where(V& v)
{
    int* p = nullptr;
    cetl::pf17::visit([&](auto& x) { p = &x.v; }, v);
    return p;
}
template <typename V>
const void* whole(V& v)
{
    const void* p = nullptr;
    cetl::pf17::visit([&](auto& x) { p = &x; }, v);
    return p;
}

template <typename FC, typename V0, typename C0, typename... A>
void call(Result& q, int style, V0& first, C0, A&&... a)
{
    q.want = FC::name();
    using Ref = decltype((std::declval<typename C0::template Of<T1>>().v));
    if (mode == "ref")
    {
        Member m;
        using Res = decltype(cetl::pf17::visit(as<FC>(m), std::forward<A>(a)...));
        q.exact   = std::is_same<Res, Ref>::value;
        when(Bool<std::is_same<Res, Ref>::value>{}, [&](auto d) {
            Ref&& x = cetl::pf17::visit(as<FC>(d(m)), std::forward<A>(a)...);
            q.ref   = &x == where(first);
            q.ret   = x;
            when(Bool<!std::is_const<std::remove_reference_t<Ref>>::value>{}, [&](auto e) { e(x) = word; });
        });
        return;
    }
#if GROUP == 1
    if (style == 1)
    {
        Owned m;
        q.exact = std::is_same<decltype(cetl::pf17::visit(as<FC>(m), std::forward<A>(a)...)), std::unique_ptr<int>>::value;
        q.ret   = *cetl::pf17::visit(as<FC>(m), std::forward<A>(a)...);
        return;
    }
    if (style == 2)
    {
        Silent m;
        q.exact = std::is_void<decltype(cetl::pf17::visit(as<FC>(m), std::forward<A>(a)...))>::value;
        cetl::pf17::visit(as<FC>(m), std::forward<A>(a)...);
        q.ret = word;
        return;
    }
#endif
    (void) style;
    Value m;
    q.exact = std::is_same<decltype(cetl::pf17::visit(as<FC>(m), std::forward<A>(a)...)), int>::value;
    q.ret   = cetl::pf17::visit(as<FC>(m), std::forward<A>(a)...);
}
#if GROUP == 1
// nothing to visit: the visitor is called all the same
template <typename FC>
void call(Result& q, int style)
{
    q.want = FC::name();
    int   target{word};
    auto  refer = [&target]() -> int& { return met(FC::name()), target; };
    Owned own;
    Value m;
    switch (style)
    {
    case 1:
        q.exact = std::is_same<decltype(cetl::pf17::visit(as<FC>(own))), std::unique_ptr<int>>::value;
        q.ret   = *cetl::pf17::visit(as<FC>(own));
        break;
    case 2:
        q.exact = std::is_same<decltype(cetl::pf17::visit(as<FC>(refer))), int&>::value;
        when(Bool<std::is_same<decltype(cetl::pf17::visit(as<FC>(refer))), int&>::value>{}, [&](auto d) {
            int& x = cetl::pf17::visit(as<FC>(d(refer)));
            q.ref  = &x == &target;
            q.ret  = x;
        });
        break;
    default:
        q.exact = std::is_same<decltype(cetl::pf17::visit(as<FC>(m))), int>::value;
        q.ret   = cetl::pf17::visit(as<FC>(m));
        break;
    }
}
#endif
template <typename S, typename... A>
int choose(S, int style, A&&... a)
{
    const auto o = build(S{}, (style & 1) != 0, std::make_index_sequence<std::tuple_size<decltype(S{}.hs)>::value>{});
#if GROUP == 1
    if ((style & 2) != 0)
    {
        auto copy = o;
        return cetl::pf17::visit(std::move(copy), std::forward<A>(a)...);
    }
#endif
    return cetl::pf17::visit(o, std::forward<A>(a)...);
}

struct Run
{
    V1 a{T1(0)};
    V2 b{T1(0)};
    V3 c{T5(0)};
    V4 d{T1(0)};

    template <typename V>
    static void lose(V& v)
    {
        Fault::arm(1);
        try
        {
            v.template emplace<0>(0);
        }
        catch (const ElemError&)
        {
        }
        Fault::arm(0);
    }
    template <typename V, std::size_t I = 0>
    static std::enable_if_t<(I >= cetl::pf17::variant_size_v<V>), bool> put_at(V&, long long, int) { return false; }
    template <typename V, std::size_t I = 0>
    static std::enable_if_t<(I < cetl::pf17::variant_size_v<V>), bool> put_at(V& v, long long i, int x)
    {
        if (i != static_cast<long long>(I) + 1) return put_at<V, I + 1>(v, i, x);
        v.template emplace<I>(x);
        return true;
    }
    template <typename V>
    static std::string obs(V& v)
    {
        const int x = v.valueless_by_exception() ? 0 : *where(v);
        return J().num("i", v.valueless_by_exception() ? 0 : static_cast<int>(v.index()) + 1).num("v", x).done();
    }
    Run()
    {
        pool = Pool{&a, &b, &c, &d};
        lose(a), lose(b), lose(c), lose(d);
        J j;
        emit(j.str("op", "cfg").raw("ty", "[[1,2,3],[1,4],[5],[1,6,2,7,8,9,10,3,4]]").raw("keep", "[false,false,true,true,false,true,true,true,true,true]")
                 .raw("sets", "[" + Set1::describe() + "," + Set2::describe() + "," + Set3::describe() + "," + Set4::describe() + "," + Set5::describe() +
                                  "," + Set6::describe() + "," + Set7::describe() + "]"));
    }
    static int alternative(int s, int type)
    {
        static const int at[] = {0, 1, 3, 8, 9, 0, 2, 4, 5, 6, 7};  // in the fourth
        return s == 4 ? at[type] : s == 1 ? type : s == 2 ? (type == 1 ? 1 : 2) : 1;
    }
    static std::string quoted(const std::vector<std::string>& x)
    {
        std::string o{"["};
        for (const auto& s : x) o += std::string(o.size() > 1 ? "," : "") + "\"" + s + "\"";
        return o + "]";
    }
    // op, argument, word, number of variants, slots, categories, style
    void step(const Op& q)
    {
        J j;
        if (q.name == "put")
        {
            bool ok = false;
            any_slot(static_cast<int>(q.at(0)), [&](auto& v) { ok = put_at(v, q.at(1), static_cast<int>(q.at(2))); });
            if (!ok) return;
            j.str("op", "put").list("a", q.a);
        }
        else if (q.name == "lose")
        {
            any_slot(static_cast<int>(q.at(0)), [&](auto& v) { lose(v); });
            j.str("op", "lose").list("a", q.a);
        }
        else if (q.name == "visit" || q.name == "pick")
        {
            const bool               picks = q.name == "pick";
            const std::size_t        n     = static_cast<std::size_t>(q.at(2));
            const int                style = static_cast<int>(q.at(3 + 2 * n));
            std::vector<int>         ss;
            std::vector<std::string> cs;
            for (std::size_t k = 0; k < n; ++k) ss.push_back(static_cast<int>(q.at(3 + k))), cs.push_back(q.w.at(3 + n + k));
            std::vector<const void*> at(n, nullptr);
            for (std::size_t k = 0; k < n; ++k)
            {
                any_slot(ss[k], [&](auto& v) {
                    if (!v.valueless_by_exception()) at[k] = whole(v);
                });
            }
            seen = Log{};
            mode = picks ? "pick" : q.w.at(0);
            word = static_cast<int>(q.at(1));
            Result o;
            try
            {
                const bool done = picks ? picked(static_cast<int>(q.at(0)), style, ss, cs, o) : visited(style, ss, cs, o);
                if (!done) return;
            }
            catch (const ElemError&)
            {
                o.r = "elem";
            }
            catch (const bad_variant_access& e)
            {
                o.r = told(e, "bad");
            }
            j.str("op", q.name).list("ss", ss).raw("cs", quoted(cs)).str("r", o.r).num("calls", seen.calls);
            if (picks)
            {
                j.num("x", q.at(0)).num("won", o.ret);
            }
            else
            {
                bool        same = o.ref;
                std::string g;
                for (std::size_t k = 0; k < seen.given.size(); ++k)
                {
                    const Given& x = seen.given[k];
                    same           = same && k < n && at[k] == x.at;
                    g += (g.empty() ? "[" : ",[") + std::to_string(alternative(k < n ? ss[k] : 1, x.type)) + "," + std::to_string(x.value) + ",\"" + x.cat + "\"]";
                }
                j.str("m", mode).num("w", word).raw("given", "[" + g + "]").num("ret", o.ret).boolean("same", same).boolean("exact", o.exact)
                    .boolean("own", seen.calls == 0 || seen.self == o.want);
            }
        }
        else
        {
            bad_script(q.name);
        }
        emit(j.raw("post", "[" + obs(a) + "," + obs(b) + "," + obs(c) + "," + obs(d) + "]"));
    }
    static bool visited(int style, const std::vector<int>& ss, const std::vector<std::string>& cs, Result& o)
    {
#if GROUP == 1
        if (ss.empty())
        {
            switch (style / 3 % 3)
            {
            case 0: call<L>(o, style % 3); break;
            case 1: call<C>(o, style % 3); break;
            default: call<R>(o, style % 3); break;
            }
            return true;
        }
        if (ss.size() == 1)
        {
            slot(ss[0], [&](auto& v) {
                cat(cs[0], [&](auto c) {
                    using CC = decltype(c);
                    switch (style / 3 % 3)
                    {
                    case 0: call<L>(o, style % 3, v, c, as<CC>(v)); break;
                    case 1: call<C>(o, style % 3, v, c, as<CC>(v)); break;
                    default: call<R>(o, style % 3, v, c, as<CC>(v)); break;
                    }
                });
            });
            return true;
        }
#elif GROUP == 2
        if (ss.size() == 2)
        {
            slot(ss[0], [&](auto& v) {
                cat(cs[0], [&](auto c) {
                    using CC = decltype(c);
                    slot(ss[1], [&](auto& w) {
                        cat(cs[1], [&](auto d) {
                            using DD = decltype(d);
                            call<std::conditional_t<std::is_same<CC, DD>::value, R, std::conditional_t<std::is_same<CC, C>::value, C, L>>>(o, style % 3, v, c, as<CC>(v), as<DD>(w));
                        });
                    });
                });
            });
            return true;
        }
#elif GROUP == 3
        if (ss.size() == 3)
        {
            bool done = false;
            cat(cs[0], [&](auto c) {
                either<C, R>(cs[1], [&](auto d) {
                    done = either<L, R>(cs[2], [&](auto e) {
                        using CC = decltype(c);
                        using DD = decltype(d);
                        using EE = decltype(e);
                        if (ss[0] == 1) call<L>(o, 0, *pool.a, c, as<CC>(*pool.a), as<DD>(*pool.b), as<EE>(*pool.c));
                        if (ss[0] == 2) call<R>(o, 0, *pool.b, c, as<CC>(*pool.b), as<DD>(*pool.c), as<EE>(*pool.a));
                        if (ss[0] == 3) call<C>(o, 0, *pool.c, c, as<CC>(*pool.c), as<DD>(*pool.a), as<EE>(*pool.b));
                    });
                });
            });
            return done;
        }
#elif GROUP == 5
        bool done = false;
        if (ss.size() == 1)
        {
            cat(cs[0], [&](auto c) { call<L>(o, 0, *pool.d, c, as<decltype(c)>(*pool.d)); });
            return true;
        }
        if (ss.size() == 2)
        {
            either<L, R>(cs[0], [&](auto c) {
                done = either<C, R>(cs[1], [&](auto d) {
                    using CC = decltype(c);
                    using DD = decltype(d);
                    if (ss[0] == 4) call<C>(o, 0, *pool.d, c, as<CC>(*pool.d), as<DD>(*pool.b));
                    else call<R>(o, 0, *pool.b, c, as<CC>(*pool.b), as<DD>(*pool.d));
                });
            });
        }
        if (ss.size() == 4 && ss[0] == 1)
        {
            either<L, R>(cs[0], [&](auto c) {
                using CC = decltype(c);
                done     = either<C, R>(cs[3], [&](auto d) {
                    call<L>(o, 0, *pool.a, c, as<CC>(*pool.a), as<C>(*pool.b), as<R>(*pool.c), as<decltype(d)>(*pool.d));
                });
            });
        }
        if (ss.size() == 4 && ss[0] == 4)
        {
            done = either<L, C>(cs[0], [&](auto c) {
                call<C>(o, 0, *pool.d, c, as<decltype(c)>(*pool.d), as<R>(*pool.c), as<L>(*pool.b), as<R>(*pool.a));
            });
        }
        return done;
#endif
        (void) style;
        return false;
    }
    static bool picked(int x, int style, const std::vector<int>& ss, const std::vector<std::string>& cs, Result& o)
    {
#if GROUP == 1
        if (ss.size() == 1)
        {
            slot(ss[0], [&](auto& v) {
                cat(cs[0], [&](auto c) {
                    using CC = decltype(c);
                    switch (x)
                    {
                    case 1: o.ret = choose(Set1{}, style, as<CC>(v)); break;
                    case 2: o.ret = choose(Set2{}, style, as<CC>(v)); break;
                    case 3: o.ret = choose(Set3{}, style, as<CC>(v)); break;
                    case 4: o.ret = choose(Set4{}, style, as<CC>(v)); break;
                    case 5: o.ret = choose(Set5{}, style, as<CC>(v)); break;
                    default: bad_script("overload set");
                    }
                });
            });
            return true;
        }
#elif GROUP == 4
        if (ss.size() == 2)
        {
            slot(ss[0], [&](auto& v) {
                cat(cs[0], [&](auto c) {
                    using CC = decltype(c);
                    slot(ss[1], [&](auto& w) {
                        cat(cs[1], [&](auto d) {
                            using DD = decltype(d);
                            switch (x)
                            {
                            case 6: o.ret = choose(Set6{}, style, as<CC>(v), as<DD>(w)); break;
                            case 7: o.ret = choose(Set7{}, style, as<CC>(v), as<DD>(w)); break;
                            default: bad_script("overload set");
                            }
                        });
                    });
                });
            });
            return true;
        }
#elif GROUP == 5
        if (ss.size() == 1)
        {
            cat(cs[0], [&](auto c) {
                using CC = decltype(c);
                V4& v    = *pool.d;
                switch (x)
                {
                case 1: o.ret = choose(Set1{}, style, as<CC>(v)); break;
                case 2: o.ret = choose(Set2{}, style, as<CC>(v)); break;
                case 3: o.ret = choose(Set3{}, style, as<CC>(v)); break;
                case 4: o.ret = choose(Set4{}, style, as<CC>(v)); break;
                case 5: o.ret = choose(Set5{}, style, as<CC>(v)); break;
                default: bad_script("overload set");
                }
            });
            return true;
        }
#endif
        (void) x, (void) style, (void) ss, (void) cs, (void) o;
        return false;
    }
};

void history(const Op&, const std::vector<Op>& ops)
{
    Fault::live() = 0;
    Run r;
    for (const auto& o : ops) r.step(o);
}
}  // namespace

int main(int argc, char** argv) { return drive(argc, argv, history); }
