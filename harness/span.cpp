// Takes spans of fixed and run-time extent through sub-views and conversions.
#include "common.hpp"

#include "cetl/pf20/span.hpp"

#include <array>
#include <memory>
#include <utility>

using namespace vh;
using cetl::pf20::span;

namespace
{
constexpr std::size_t DYN = cetl::pf20::dynamic_extent;
// -DMANY: many elements, of the fixed extents only some (steps that would lead to others are left out)
#if defined(MANY)
constexpr std::size_t MAX = 300;
constexpr bool known(std::size_t x) { return x == 0 || x == 4 || x == 44 || x == 256 || x == 300; }
#else
constexpr std::size_t MAX = 4;  // elements
constexpr bool known(std::size_t x) { return x <= MAX; }
#endif

struct Twelve
{
    int v, w, x;
    Twelve(int n = 0) : v(n), w(n + 1), x(n + 2) {}
    operator int() const { return v; }
};
struct More : Twelve { using Twelve::Twelve; };
template <typename T> using Bare = std::remove_const_t<T>;
template <std::size_t N> using Num = std::integral_constant<std::size_t, N>;
constexpr long long ext(std::size_t x) { return x == DYN ? -1 : static_cast<long long>(x); }

// calls f(Num<k>) for the k that is asked for, among From..To
#if defined(MANY)
template <std::size_t From, std::size_t To>
struct Choose
{
    template <std::size_t K, typename F> static void one(F& f, std::true_type) { f(Num<K>{}); }
    template <std::size_t K, typename F> static void one(F&, std::false_type) {}
    template <std::size_t K, typename F> static void one(F& f) { one<K>(f, std::integral_constant<bool, (From <= K && K <= To)>{}); }
    template <typename F> static void run(std::size_t k, F&& f)
    {
        switch (k)
        {
        case 0: return one<0>(f);
        case 4: return one<4>(f);
        case 44: return one<44>(f);
        case 256: return one<256>(f);
        case 300: return one<300>(f);
        default: return;
        }
    }
};
#else
template <std::size_t From, std::size_t To>
struct Choose
{
    template <typename F> static void run(std::size_t k, F&& f)
    {
        if (k == From) f(Num<From>{});
        else Choose<From + 1, To>::run(k, f);
    }
};
template <std::size_t To>
struct Choose<To, To>
{
    template <typename F> static void run(std::size_t k, F&& f)
    {
        if (k != To) bad_script("count out of range");
        f(Num<To>{});
    }
};
#endif

template <typename T>
struct World
{
    std::array<T, MAX> mem;
    std::string        seq() const
    {
        std::string o = "[";
        for (const T& x : mem) o += (o.size() > 1 ? "," : "") + std::to_string(static_cast<int>(x));
        return o + "]";
    }
};
struct Held
{
    virtual ~Held()                                                                                                  = default;
    virtual std::string           obs() const                                                                       = 0;
    virtual std::unique_ptr<Held> first(std::size_t n, bool fixed) const                                            = 0;
    virtual std::unique_ptr<Held> last(std::size_t n, bool fixed) const                                             = 0;
    virtual std::unique_ptr<Held> sub(std::size_t k, std::size_t n, bool open, bool fixed) const                    = 0;
    virtual std::unique_ptr<Held> convert(const std::string& how, int way) const                                    = 0;
    virtual void                  write(std::size_t k, int v, int way) const                                        = 0;
    virtual std::size_t           size() const                                                                      = 0;
    virtual bool                  is_const() const                                                                  = 0;
};
template <typename E, std::size_t X> struct Holder;
// extents that cannot be right: told, and left at that
struct Stray : Held
{
    std::string told;
    Stray(long long n, long long x, bool c) : told(J().num("o", -2).num("n", n).num("x", x).boolean("c", c).num("bytes", 0).boolean("empty", false).raw("seqs", "[]").raw("back", "[]").boolean("same", false).done()) {}
    std::string           obs() const override { return told; }
    std::unique_ptr<Held> first(std::size_t, bool) const override { bad_script("stray"); }
    std::unique_ptr<Held> last(std::size_t, bool) const override { bad_script("stray"); }
    std::unique_ptr<Held> sub(std::size_t, std::size_t, bool, bool) const override { bad_script("stray"); }
    std::unique_ptr<Held> convert(const std::string&, int) const override { bad_script("stray"); }
    void                  write(std::size_t, int, int) const override { bad_script("stray"); }
    std::size_t           size() const override { return 0; }
    bool                  is_const() const override { return true; }
};
template <typename E, std::size_t X, std::enable_if_t<X == DYN || known(X), int> = 0>
std::unique_ptr<Held> held(World<Bare<E>>& w, const span<E, X>& s) { return std::unique_ptr<Held>(new Holder<E, X>(w, s)); }
template <typename E, std::size_t X, std::enable_if_t<X != DYN && X <= MAX && !known(X), int> = 0>
std::unique_ptr<Held> held(World<Bare<E>>&, const span<E, X>&) { return nullptr; }
template <typename E, std::size_t X, std::enable_if_t<X != DYN && (X > MAX), int> = 0>
std::unique_ptr<Held> held(World<Bare<E>>&, const span<E, X>& s)
{
    return std::unique_ptr<Held>(new Stray(static_cast<long long>(s.size() % 1000), static_cast<long long>(X % 1000), std::is_const<E>::value));
}

template <typename E, std::size_t X>
struct Holder : Held
{
    using S                      = span<E, X>;
    using W                      = World<Bare<E>>;
    static constexpr bool FIXED  = X != DYN;
    static constexpr std::size_t TOP = FIXED ? X : MAX;
    W& w;
    S  s;
    Holder(W& world, const S& x) : w(world), s(x) {}

    std::size_t size() const override { return s.size(); }
    bool        is_const() const override { return std::is_const<E>::value; }

    std::string obs() const override
    {
        std::string       a = "[", b = "[", c = "[", d = "[", back = "[";
        bool              same = true;
        const std::size_t n    = s.size();
        auto              add  = [](std::string& o, const E& x) { o += (o.size() > 1 ? "," : "") + std::to_string(static_cast<int>(x)); };
        for (std::size_t k = 0; k < n; k++) add(a, s[k]), same = same && &s[k] == s.data() + k;
        for (auto& x : s) add(b, x);
        for (auto it = s.begin(); it != s.end(); ++it) add(c, *it);
        for (std::size_t k = 0; k < n; k++) add(d, k == 0 ? s.front() : k + 1 == n ? s.back() : s.data()[k]);
        for (auto it = s.rbegin(); it != s.rend(); ++it) add(back, *it);
        if (n > 0) same = same && &s.front() == s.data() && &s.back() == s.data() + (n - 1);
        same = same && s.begin() == s.data() && s.end() == s.data() + n && s.rend().base() == s.begin() && s.rbegin().base() == s.end();
        same = same && S::extent == X;
        long long o = s.data() == nullptr ? -1 : s.data() - w.mem.data();
        return J().num("o", o).num("n", static_cast<long long>(n)).num("x", ext(X)).boolean("c", std::is_const<E>::value).num("bytes", static_cast<long long>(s.size_bytes()))
            .boolean("empty", s.empty()).raw("seqs", "[" + a + "]," + b + "]," + c + "]," + d + "]]").raw("back", back + "]").boolean("same", same).done();
    }
    std::unique_ptr<Held> first(std::size_t n, bool fixed) const override
    {
        std::unique_ptr<Held> r;
        if (!fixed) return held(w, s.first(n));
        Choose<0, TOP>::run(n, [&](auto k) { r = held(w, s.template first<decltype(k)::value>()); });
        return r;
    }
    std::unique_ptr<Held> last(std::size_t n, bool fixed) const override
    {
        std::unique_ptr<Held> r;
        if (!fixed) return held(w, s.last(n));
        Choose<0, TOP>::run(n, [&](auto k) { r = held(w, s.template last<decltype(k)::value>()); });
        return r;
    }
    std::unique_ptr<Held> sub(std::size_t k, std::size_t n, bool open, bool fixed) const override
    {
        std::unique_ptr<Held> r;
        if (!fixed) return held(w, open ? s.subspan(k) : s.subspan(k, n));
        Choose<0, TOP>::run(k, [&](auto off) {
            constexpr std::size_t OFF = decltype(off)::value;
            if (open) r = held(w, s.template subspan<OFF>());
            else Choose<0, TOP - OFF>::run(n, [&](auto cnt) { r = held(w, s.template subspan<OFF, decltype(cnt)::value>()); });
        });
        return r;
    }
    std::unique_ptr<Held> convert(const std::string& how, int way) const override
    {
        std::unique_ptr<Held> r;
        if (how == "todyn")
        {
            span<E> d = s;
            return held(w, d);
        }
        if (how == "tofix")
        {
            Choose<(FIXED ? X : 0), TOP>::run(s.size(), [&](auto n) { r = held(w, span<E, decltype(n)::value>(s)); });
            return r;
        }
        if (how == "tocst")
        {
            span<const E, X> d = s;
            return held(w, d);
        }
        if (way == 0) return held(w, S(s));
        S d(s.data(), s.size());
        S e(d);
        S& q = (e = s);
        return held(w, q);
    }
    void put(std::size_t, int, int, std::true_type) const { bad_script("read-only"); }
    void put(std::size_t k, int v, int way, std::false_type) const
    {
        switch (way)
        {
        case 0: s[k] = static_cast<E>(v); break;
        case 1: s.begin()[k] = static_cast<E>(v); break;
        case 2: s.data()[k] = static_cast<E>(v); break;
        default: s.rbegin()[static_cast<std::ptrdiff_t>(s.size() - 1 - k)] = static_cast<E>(v);
        }
    }
    void write(std::size_t k, int v, int way) const override { put(k, v, way, std::is_const<E>{}); }
};

template <typename T>
class Run
{
    World<T>              w_;
    std::unique_ptr<Held> h_[2];

    template <typename E, std::size_t X>
    std::unique_ptr<Held> make(std::size_t o, std::size_t n, int way)
    {
        T*                    at = w_.mem.data() + o;
        std::unique_ptr<Held> r;
        if (way == 0 || n == 0) return held(w_, span<E, X>(at, n));
        if (way == 1) return held(w_, span<E, X>(at, at + n));
        if (way == 2) return held(w_, span<E, X>(static_cast<E*>(at), static_cast<E*>(at + n)));
        constexpr std::size_t LOW = X == DYN ? 1 : X == 0 ? 1 : X, HIGH = X == DYN ? MAX : LOW;
        Choose<LOW, HIGH>::run(n, [&](auto k) { r = array<E, X, decltype(k)::value>(at, way, Num<(X == 0 ? 0 : 1)>{}); });
        return r;
    }
    template <typename E, std::size_t X, std::size_t N>
    std::unique_ptr<Held> array(T*, int, Num<0>) { bad_script("no arrays of no elements"); }
    template <typename E, std::size_t X, std::size_t N>
    std::unique_ptr<Held> array(T* at, int way, Num<1>)
    {
        if (way == 3)
        {
            span<E, X> s = reinterpret_cast<T(&)[N]>(*at);
            return held(w_, s);
        }
        if (way == 4)
        {
            span<E, X> s = reinterpret_cast<std::array<T, N>&>(*at);
            return held(w_, s);
        }
        return read_only<E, X, N>(at, way, std::is_const<E>{});
    }
    template <typename E, std::size_t X, std::size_t N>
    std::unique_ptr<Held> read_only(T* at, int, std::false_type) { return held(w_, span<E, X>(reinterpret_cast<E(&)[N]>(*at))); }
    template <typename E, std::size_t X, std::size_t N>
    std::unique_ptr<Held> read_only(T* at, int way, std::true_type)
    {
        if (way == 5)
        {
            span<E, X> s = reinterpret_cast<const std::array<T, N>&>(*at);
            return held(w_, s);
        }
        if (way == 6)
        {
            span<E, X> s = reinterpret_cast<std::array<const T, N>&>(*at);
            return held(w_, s);
        }
        span<E, X> s = reinterpret_cast<const T(&)[N]>(*at);
        return held(w_, s);
    }
    template <typename From, typename To>
    static void can(J& j, long long x, bool fc, const char* ft, long long y, bool tc, const char* tt)
    {
        j.raw("from", J().num("x", x).boolean("c", fc).str("t", ft).done()).raw("to", J().num("x", y).boolean("c", tc).str("t", tt).done());
        j.boolean("fits", std::is_constructible<To, From>::value).boolean("impl", std::is_convertible<From, To>::value);
    }
    template <typename F, std::size_t FX, typename G, std::size_t TX>
    static void can(J& j, int way, const char* ft, const char* tt)
    {
        constexpr std::size_t N = FX == DYN || FX == 0 ? 1 : FX;
        constexpr bool        C = std::is_const<F>::value, D = std::is_const<G>::value;
        if (way == 0) return can<span<F, FX>, span<G, TX>>(j, ext(FX), C, ft, ext(TX), D, tt);
        if (way == 1) return can<F(&)[N], span<G, TX>>(j, N, C, ft, ext(TX), D, tt);
        using A = std::conditional_t<C, const std::array<Bare<F>, N>, std::array<Bare<F>, N>>;
        if (way == 2) return can<A&, span<G, TX>>(j, N, C, ft, ext(TX), D, tt);
        return can<const span<F, FX>&, span<G, TX>>(j, ext(FX), C, ft, ext(TX), D, tt);
    }
    template <std::size_t FX, std::size_t TX>
    static void can(J& j, int kinds, int way)
    {
        switch (kinds)
        {
        case 0: return can<T, FX, T, TX>(j, way, "t", "t");
        case 1: return can<const T, FX, T, TX>(j, way, "t", "t");
        case 2: return can<T, FX, const T, TX>(j, way, "t", "t");
        case 3: return can<const T, FX, const T, TX>(j, way, "t", "t");
        case 4: return can<More, FX, Twelve, TX>(j, way, "more", "twelve");
        case 5: return can<More, FX, const Twelve, TX>(j, way, "more", "twelve");
        default: return can<T, FX, const short, TX>(j, way, "t", "short");
        }
    }
    template <typename F>
    static void extent(long long x, F&& f)
    {
        if (x < 0) f(Num<DYN>{});
#if defined(MANY)
        else Choose<0, MAX>::run(static_cast<std::size_t>(x), f);
#else
        else if (x == 0) f(Num<0>{});
        else if (x == 1) f(Num<1>{});
        else if (x == 2) f(Num<2>{});
        else if (x == 3) f(Num<3>{});
        else f(Num<4>{});
#endif
    }

public:
    Run()
    {
        for (std::size_t k = 0; k < MAX; k++) w_.mem[k] = T(static_cast<int>(0));
        for (auto& h : h_) h = held(w_, span<T>());
        emit(J().str("op", "cfg").num("size", sizeof(T)).raw("mem", w_.seq()));
    }
    void step(const Op& q)
    {
        const auto& n = q.name;
        J           j;
        j.str("op", n);
        const int  d = static_cast<int>(q.at(0)) - 1;
        const auto u = [&](std::size_t k) { return static_cast<std::size_t>(q.at(k)); };
        std::unique_ptr<Held> r;
        if (n == "make")  // d o n x const way
        {
            extent(q.at(3), [&](auto x) {
                constexpr std::size_t X = decltype(x)::value;
                if (q.at(4)) r = this->template make<const T, X>(u(1), u(2), static_cast<int>(q.at(5)));
                else r = this->template make<T, X>(u(1), u(2), static_cast<int>(q.at(5)));
            });
            j.num("o", q.at(1)).num("n", q.at(2)).num("x", q.at(3)).boolean("c", q.at(4) != 0);
        }
        else if (n == "none")  // d x const
        {
            if (q.at(1) < 0) r = q.at(2) ? held(w_, span<const T>()) : held(w_, span<T>());
            else r = q.at(2) ? held(w_, span<const T, 0>()) : held(w_, span<T, 0>());
            j.num("x", q.at(1)).boolean("c", q.at(2) != 0);
        }
#if !defined(MANY)
        else if (n == "can")  // - kinds way x y
        {
            extent(q.at(3), [&](auto x) {
                extent(q.at(4), [&](auto y) { can<decltype(x)::value, decltype(y)::value>(j, static_cast<int>(q.at(1)), static_cast<int>(q.at(2))); });
            });
        }
#endif
        else if (n == "write")  // s k v way
        {
            auto& s = *h_[d];
            if (s.is_const() || u(1) >= s.size()) return;
            s.write(u(1), static_cast<int>(q.at(2)), static_cast<int>(q.at(3)));
            j.num("s", d + 1).num("k", q.at(1)).num("v", q.at(2));
        }
        else  // d s ...
        {
            auto& s = *h_[q.at(1) - 1];
            j.num("s", q.at(1));
            if (n == "first" || n == "last")  // n fixed
            {
                if (u(2) > s.size()) return;
                r = n == "first" ? s.first(u(2), q.at(3) != 0) : s.last(u(2), q.at(3) != 0);
                j.num("n", q.at(2)).boolean("f", q.at(3) != 0);
            }
            else if (n == "sub")  // k n fixed
            {
                if (u(2) > s.size() || (q.at(3) >= 0 && u(3) > s.size() - u(2))) return;
                r = s.sub(u(2), u(3), q.at(3) < 0, q.at(4) != 0);
                j.num("k", q.at(2)).num("n", q.at(3)).boolean("f", q.at(4) != 0);
            }
            else { r = s.convert(n, static_cast<int>(q.at(2))); }
        }
        if (r != nullptr)
        {
            h_[d] = std::move(r);
            j.num("d", d + 1);
        }
        else if (n != "can" && n != "write") return;
        emit(j.raw("mem", w_.seq()).raw("post", "[" + h_[0]->obs() + "," + h_[1]->obs() + "]"));
    }
};
template <typename T>
void run(const std::vector<Op>& ops)
{
    Run<T> r;
    for (const auto& o : ops) r.step(o);
}
void history(const Op& hdr, const std::vector<Op>& ops)
{
    (void) hdr;
    run<ELEMENT>(ops);
}
}  // namespace

int main(int argc, char** argv) { return drive(argc, argv, history); }
