// Drives pools of variants. The list of alternatives is chosen by the history header.
#include "alts.hpp"

#include "cetl/pf17/variant.hpp"

#include <memory>

using namespace vh;
using cetl::pf17::bad_variant_access;
using cetl::pf17::in_place_index_t;
using cetl::pf17::in_place_type_t;
using cetl::pf17::variant;
using cetl::pf17::variant_alternative_t;
using cetl::pf17::variant_npos;

namespace
{
constexpr int NOTHING  = -1000;
constexpr int NOTASKED = -2000;
constexpr int WRONG    = -3000;

template <std::size_t I>
using Ix = std::integral_constant<std::size_t, I>;
template <std::size_t N, typename F, std::size_t... I>
void each(F&& f, std::index_sequence<I...>)
{
    int d[] = {(f(Ix<I>{}), 0)...};
    (void) d;
}
void arm(const Op& o) { Fault::arm(o.w.at(0) == "e" ? o.at(1) : 0); }

template <typename T, typename... Ts>
struct CountOf;
template <typename T>
struct CountOf<T> : std::integral_constant<int, 0> {};
template <typename T, typename U, typename... Ts>
struct CountOf<T, U, Ts...> : std::integral_constant<int, (std::is_same<T, U>::value ? 1 : 0) + CountOf<T, Ts...>::value> {};

template <typename...>
using Void = void;
template <typename V, std::size_t I, typename = void>
struct ListByIndex : std::false_type {};
template <typename V, std::size_t I>
struct ListByIndex<V, I, Void<decltype(std::declval<V&>().template emplace<I>(std::declval<std::initializer_list<int>>(), 6))>> : std::true_type {};
template <typename V, typename T, typename = void>
struct ListByType : std::false_type {};
template <typename V, typename T>
struct ListByType<V, T, Void<decltype(std::declval<V&>().template emplace<T>(std::declval<std::initializer_list<int>>(), 6))>> : std::true_type {};

template <typename... Ts>
struct Run
{
    using V                        = variant<Ts...>;
    static constexpr std::size_t N = sizeof...(Ts);
    template <std::size_t I>
    using At = std::tuple_element_t<I, std::tuple<Ts...>>;
    template <std::size_t I>
    using Uniq = Bool<CountOf<At<I>, Ts...>::value == 1>;
    template <template <typename> class P>
    static constexpr bool all() { return cetl::pf17::conjunction_v<P<Ts>...>; }
    using CC = Bool<cetl::pf17::conjunction_v<std::is_copy_constructible<Ts>...>>;
    using MC = Bool<cetl::pf17::conjunction_v<std::is_move_constructible<Ts>...>>;
    using CA = Bool<cetl::pf17::conjunction_v<std::is_copy_assignable<Ts>...> && CC::value>;
    using MA = Bool<cetl::pf17::conjunction_v<std::is_move_assignable<Ts>...> && MC::value>;
    static_assert(std::is_copy_constructible<V>::value == CC::value && std::is_copy_assignable<V>::value == CA::value, "");

    struct Cell
    {
        alignas(V) unsigned char raw[sizeof(V)];
        V* p{nullptr};
    };
    std::vector<Cell*> cell;
    long long          ret{0};
    bool               nx{false};

    template <typename F>
    static void with(long long j, F&& f)
    {
        if (j < 1 || j > static_cast<long long>(N)) bad_script("alternative");
        each<N>([&](auto i) {
            if (static_cast<long long>(decltype(i)::value) + 1 == j) f(i);
        }, std::make_index_sequence<N>{});
    }
    template <typename F>
    static int caught(F&& f)
    {
        try
        {
            return val(f());
        }
        catch (const bad_variant_access&)
        {
            return NOTHING;
        }
    }
    std::string obs(Cell& c)
    {
        J j;
        j.boolean("on", c.p != nullptr);
        if (c.p == nullptr) return j.done();
        V&                            v = *c.p;
        const V&                      k = *c.p;
        std::vector<std::vector<int>> g(6), t(6);
        std::vector<int>              hold;
        each<N>([&](auto i) {
            constexpr std::size_t I  = decltype(i)::value;
            auto*                 p  = cetl::pf17::get_if<I>(&v);
            const auto*           q  = cetl::pf17::get_if<I>(&k);
            const bool            ok = (p == nullptr || static_cast<void*>(p) == static_cast<void*>(c.p)) && p == q &&
                            cetl::pf17::get_if<I>(static_cast<V*>(nullptr)) == nullptr;
            g[0].push_back(!ok ? WRONG : p == nullptr ? NOTHING : val(*p));
            g[1].push_back(q == nullptr ? NOTHING : val(*q));
            g[2].push_back(caught([&]() -> const At<I>& { return cetl::pf17::get<I>(v); }));
            g[3].push_back(caught([&]() -> const At<I>& { return cetl::pf17::get<I>(k); }));
            g[4].push_back(caught([&]() -> const At<I>&& { return cetl::pf17::get<I>(std::move(v)); }));
            g[5].push_back(caught([&]() -> const At<I>&& { return cetl::pf17::get<I>(std::move(k)); }));
            const bool u = when(Uniq<I>{}, [&](auto d) {
                using T = At<std::decay_t<decltype(d(i))>::value>;
                hold.push_back(cetl::pf17::holds_alternative<T>(d(k)) ? 1 : 0);
                T*       x = cetl::pf17::get_if<T>(&d(v));
                const T* y = cetl::pf17::get_if<T>(&d(k));
                t[0].push_back(x == nullptr ? NOTHING : val(*x));
                t[1].push_back(y == nullptr ? NOTHING : val(*y));
                t[2].push_back(caught([&]() -> const T& { return cetl::pf17::get<T>(d(v)); }));
                t[3].push_back(caught([&]() -> const T& { return cetl::pf17::get<T>(d(k)); }));
                t[4].push_back(caught([&]() -> const T&& { return cetl::pf17::get<T>(std::move(d(v))); }));
                t[5].push_back(caught([&]() -> const T&& { return cetl::pf17::get<T>(std::move(d(k))); }));
            });
            if (!u)
            {
                hold.push_back(NOTASKED);
                for (auto& x : t) x.push_back(NOTASKED);
            }
        }, std::make_index_sequence<N>{});
        std::vector<int> vis{NOTHING, NOTHING};
        try
        {
            const void* at = nullptr;
            cetl::pf17::visit([&](const auto& x) {
                vis[1] = val(x);
                at     = &x;
            }, k);
            vis[0] = at != static_cast<const void*>(c.p) ? WRONG : static_cast<int>(k.index()) + 1;
        }
        catch (const bad_variant_access&)
        {
        }
        auto lists = [](const std::vector<std::vector<int>>& x) {
            std::string o{"["};
            for (const auto& l : x)
            {
                std::string s;
                for (int y : l) s += (s.empty() ? "" : ",") + std::to_string(y);
                o += (o.size() > 1 ? ",[" : "[") + s + "]";
            }
            return o + "]";
        };
        const long long ix = k.index() == variant_npos ? 0 : k.index() < N ? static_cast<long long>(k.index()) + 1 : WRONG;
        return j.num("i", ix).boolean("x", k.valueless_by_exception()).raw("g", lists(g)).raw("t", lists(t)).list("hold", hold).list("vis", vis).done();
    }

    Run(const Op& hdr)
    {
        const long long n = hdr.at(1);
        cell.push_back(nullptr);
        for (long long k = 0; k < n; ++k) cell.push_back(new Cell());
        std::string alts{"["}, cnt{"["}, uq{"["};
        each<N>([&](auto i) {
            using T = At<decltype(i)::value>;
            J a;
            a.boolean("nm", std::is_nothrow_move_constructible<T>::value).boolean("nc", std::is_nothrow_copy_constructible<T>::value)
                .boolean("keep", KeepsValue<T>::value);
            alts += (alts.size() > 1 ? "," : "") + a.done();
            cnt += std::string(cnt.size() > 1 ? "," : "") + (std::is_trivially_destructible<T>::value ? "false" : "true");
            uq += std::string(uq.size() > 1 ? "," : "") + (Uniq<decltype(i)::value>::value ? "true" : "false");
        }, std::make_index_sequence<N>{});
        J c;
        emit(c.str("op", "cfg").num("slots", n).raw("alts", alts + "]").raw("counted", cnt + "]").raw("uniq", uq + "]").boolean("cc", CC::value)
                 .boolean("mc", MC::value).boolean("ca", CA::value).boolean("ma", MA::value));
    }
    ~Run()
    {
        for (auto* c : cell)
        {
            if (c != nullptr && c->p != nullptr) c->p->~V();
            delete c;
        }
    }
    // an operation that is expected must also be there
    template <typename E, typename A, typename F>
    bool must(E, A, F&& f)
    {
        if (E::value != A::value) ret = WRONG;
        return when(Bool<E::value && A::value>{}, std::forward<F>(f)) || E::value != A::value;
    }
    template <typename U, std::size_t I>
    static constexpr bool nothrow() { return std::is_nothrow_constructible<At<I>, U>::value; }

    bool act(const Op& q)
    {
        const std::string& n   = q.name;
        Cell&              c   = *cell[static_cast<std::size_t>(q.at(2))];
        const bool         two = n == "copynew" || n == "movenew" || n == "copya" || n == "movea" || n == "swap";
        const bool         jv  = n == "newv" || n == "emplace" || n == "assign";
        const int          how = static_cast<int>(q.a.size() > (jv ? 5U : 4U) ? q.a.back() : 0);
        bool               ok  = false;
        if (jv)
        {
            const int v = static_cast<int>(q.at(4));
            with(q.at(3), [&](auto i) {
                constexpr std::size_t I = decltype(i)::value;
                using T                 = At<I>;
                using F                 = From<SourceOf<T>::value>;
                using Q                 = Quiet<SourceOf<T>::value>;
                using U                 = Uniq<I>;
                using IL                = Bool<std::is_constructible<T, std::initializer_list<int>&, int>::value>;
                using IL1               = Bool<IL::value && U::value>;
                using Cp                = Bool<std::is_copy_constructible<T>::value && U::value>;
                T t(v);
                F f(v);
                Q z{v};
                if (n == "newv")
                {
                    auto put = [&](auto&&... a) {
                        arm(q);
                        c.p = new (c.raw) V(std::forward<decltype(a)>(a)...);
                    };
                    switch (how)
                    {
                    case 1: put(in_place_index_t<I>{}, v); ok = true; break;
                    case 2: ok = when(U{}, [&](auto d) { put(d(in_place_type_t<T>{}), v); }); break;
                    case 3: ok = when(U{}, [&](auto d) { put(d(f)); }); break;
                    case 4: ok = when(U{}, [&](auto d) { put(std::move(d(f))); }); break;
                    case 5: ok = when(U{}, [&](auto d) { put(std::move(d(t))); }); break;
                    case 6: ok = when(Cp{}, [&](auto d) { put(d(static_cast<const T&>(t))); }); break;
                    case 7: ok = when(U{}, [&](auto d) { put(d(z)); }); break;
                    case 8: ok = when(IL{}, [&](auto d) { arm(q), c.p = new (c.raw) V(in_place_index_t<I>{}, {d(v) - 7, 1}, 6); }); break;
                    case 9: ok = when(IL1{}, [&](auto d) { arm(q), c.p = new (c.raw) V(d(in_place_type_t<T>{}), {v - 7, 1}, 6); }); break;
                    default: put(in_place_index_t<I>{}, std::move(t)); ok = true; break;
                    }
                }
                else if (n == "emplace")
                {
                    auto got = [&](T& y) { ret = &y == cetl::pf17::get_if<I>(c.p) ? val(y) : WRONG; };
                    arm(q);
                    switch (how)
                    {
                    case 1: got(c.p->template emplace<I>(std::move(t))); ok = true; break;
                    case 2: ok = when(U{}, [&](auto d) { got(d(*c.p).template emplace<T>(v)); }); break;
                    case 3: got(c.p->template emplace<I>(f)); ok = true; break;
                    case 4: ok = when(U{}, [&](auto d) { got(d(*c.p).template emplace<T>(d(z))); }); break;
                    case 5: ok = must(IL{}, ListByIndex<V, I>{}, [&](auto d) { got(d(*c.p).template emplace<I>({v - 7, 1}, 6)); }); break;
                    case 6: ok = U::value && must(IL1{}, ListByType<V, std::conditional_t<U::value, T, void>>{}, [&](auto d) { got(d(*c.p).template emplace<T>({v - 7, 1}, 6)); }); break;
                    default: got(c.p->template emplace<I>(v)); ok = true; break;
                    }
                }
                else
                {
                    arm(q);
                    auto is = [&](V& w) {
                        if (&w != c.p) ret = WRONG;
                    };
                    switch (how)
                    {
                    case 1: ok = when(U{}, [&](auto d) { nx = nothrow<T, I>(), is(d(*c.p) = std::move(t)); }); break;
                    case 2: ok = when(Cp{}, [&](auto d) { nx = nothrow<const T&, I>(), is(d(*c.p) = static_cast<const T&>(t)); }); break;
                    case 3: ok = when(U{}, [&](auto d) { nx = nothrow<F, I>(), is(d(*c.p) = std::move(f)); }); break;
                    case 4: ok = when(U{}, [&](auto d) { nx = nothrow<Q, I>(), is(d(*c.p) = z); }); break;
                    default: ok = when(U{}, [&](auto d) { nx = nothrow<F&, I>(), is(d(*c.p) = f); }); break;
                    }
                }
            });
            return ok;
        }
        Cell* u = two ? cell[static_cast<std::size_t>(q.at(3))] : nullptr;
        arm(q);
        if (n == "copynew") return when(CC{}, [&](auto d) { c.p = new (c.raw) V(how == 1 ? static_cast<const V&>(d(*u->p)) : d(*u->p)); });
        if (n == "movenew") return when(MC{}, [&](auto d) { c.p = new (c.raw) V(std::move(d(*u->p))); });
        if (n == "copya")
        {
            return when(CA{}, [&](auto d) {
                if (&(d(*c.p) = static_cast<const V&>(*u->p)) != c.p) ret = WRONG;
            });
        }
        if (n == "movea")
        {
            return u != &c && when(MA{}, [&](auto d) {
                if (&(d(*c.p) = std::move(*u->p)) != c.p) ret = WRONG;
            });
        }
        if (n == "swap")
        {
            return when(Bool<MC::value && MA::value>{}, [&](auto d) {
                d(*c.p).swap(*u->p);
            });
        }
        if (n == "dest")
        {
            c.p->~V();
            std::memset(c.raw, 0xA5, sizeof c.raw);
            c.p = nullptr;
            return true;
        }
        if (n == "write")
        {
            if (c.p->valueless_by_exception()) return false;
            with(static_cast<long long>(c.p->index()) + 1, [&](auto i) {
                auto& x = cetl::pf17::get<decltype(i)::value>(*c.p);
                x.v     = (val(x), static_cast<int>(q.at(3)));
            });
            return true;
        }
        if (n == "take")
        {
            if (!MC::value) return false;
            with(q.at(3), [&](auto i) {
                ok = when(MC{}, [&](auto d) {
                    At<std::decay_t<decltype(d(i))>::value> x = cetl::pf17::get<std::decay_t<decltype(d(i))>::value>(std::move(*c.p));
                    ret                         = val(x);
                });
            });
            return ok;
        }
        bad_script(n);
    }
    void step(const Op& q)
    {
        const std::size_t s = static_cast<std::size_t>(q.at(2));
        if (s < 1 || s >= cell.size()) bad_script("slot");
        const bool make = q.name == "newv" || q.name == "copynew" || q.name == "movenew";
        const bool two  = make ? q.name != "newv" : q.name == "copya" || q.name == "movea" || q.name == "swap";
        if (make == (cell[s]->p != nullptr)) return;
        if (two)
        {
            const std::size_t u = static_cast<std::size_t>(q.at(3));
            if (u < 1 || u >= cell.size()) bad_script("slot");
            if (cell[u]->p == nullptr) return;
        }
        std::string r{"ok"};
        bool        ok = true;
        ret            = 0;
        nx             = false;
        Fault::arm(0);
        try
        {
            ok = act(q);
        }
        catch (const ElemError&)
        {
            r = "elem";
        }
        catch (const bad_variant_access& e)
        {
            r = told(e, "bad");
        }
        if (!ok) return;
        const bool fired = Fault::fired();
        Fault::arm(0);
        if (ret == WRONG) r = "wrong";
        std::vector<long long> a;
        for (std::size_t k = 3; k < q.a.size() && k < 5; ++k) a.push_back(q.at(k));
        std::string post{"["};
        for (std::size_t k = 1; k < cell.size(); ++k) post += (k > 1 ? "," : "") + obs(*cell[k]);
        J j;
        emit(j.str("op", q.name).num("s", static_cast<long long>(s)).list("a", a).str("r", r).num("ret", ret).boolean("nx", nx).boolean("fired", fired)
                 .raw("post", post + "]").num("live", Fault::live()));
    }
};

template <typename... Ts>
void run(const Op& hdr, const std::vector<Op>& ops)
{
    Fault::live() = 0;
    Run<Ts...> r(hdr);
    for (const auto& o : ops) r.step(o);
}
void history(const Op& hdr, const std::vector<Op>& ops)
{
    switch (hdr.at(0))
    {
#if GROUP == 1
    case 1: return run<Triv<1>, Alt<2, true, false>, Alt<3, true, true>>(hdr, ops);
    case 2: return run<Alt<1, true, false>, Alt<2, false, true>, Alt<3, false, false>>(hdr, ops);
    case 3: return run<MovAlt<1>, Triv<2>>(hdr, ops);
#elif GROUP == 2
    case 4: return run<Triv<1>, Triv<2>, Triv<3>>(hdr, ops);
    case 5: return run<Alt<1, true, true>>(hdr, ops);
    case 6: return run<TrivButMove<1>, OnlyCopies<2>, Triv<3>>(hdr, ops);
    case 7: return run<Alt<1, true, false>, Triv<2>, Alt<1, true, false>, Alt<3, true, true>>(hdr, ops);
#else
    case 8: return run<Alt<1, true, false>, Alt<2, true, true>, Triv<3>, Alt<4, true, false>, MovAlt<5>, Alt<6, false, true>, Triv<7>, Alt<8, false, false>>(hdr, ops);
    case 9: return run<OnlyCopies<1>, Alt<2, true, true>>(hdr, ops);
    case 10: return run<TrivButMove<1>, Triv<2>>(hdr, ops);
#endif
    default: bad_script("alternatives");
    }
}
}  // namespace

int main(int argc, char** argv) { return drive(argc, argv, history); }
