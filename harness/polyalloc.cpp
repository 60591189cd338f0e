// Uses polymorphic allocators over recording resources and constructs probes that say how they were constructed.
// GROUP: the kind of object that comes first in pairs; 0: everything that is not a pair.
#include "common.hpp"

#include "cetl/pf17/memory_resource.hpp"

#include <memory>
#include <tuple>
#include <type_traits>
#include <utility>

using namespace vh;
namespace pmr = cetl::pf17::pmr;
template <typename T> using PA = pmr::polymorphic_allocator<T>;

namespace
{
// -- elements
struct Twelve { int v[3]; };
struct alignas(32) Wide { char c[32]; };
template <int N> struct Elem;
template <> struct Elem<1> { using T = char; };
template <> struct Elem<2> { using T = int; };
template <> struct Elem<3> { using T = Twelve; };
template <> struct Elem<4> { using T = Wide; };
template <int N> using ElemT = typename Elem<N>::T;
template <int N> using Num = std::integral_constant<int, N>;
template <typename F> void elem(long long t, F&& f)
{
    if (t == 1) f(Num<1>{});
    else if (t == 2) f(Num<2>{});
    else if (t == 3) f(Num<3>{});
    else f(Num<4>{});
}

// -- resources
std::vector<std::string> calls;
std::string              fail{"ok"};
std::size_t              per_count{1};  // bytes that one element of the request should take
std::size_t              wanted{0};     // count of the request
class Res : public pmr::memory_resource
{
public:
    const int id, cls;
    Res(int i, int c) : id(i), cls(c) {}

private:
    void note(const char* op, std::size_t bytes, std::size_t align, std::size_t was)
    {
        const bool small = bytes < 100000;
        calls.push_back(J().str("op", op).num("r", id).num("bytes", small ? static_cast<long long>(bytes) : -1).num("align", static_cast<long long>(align))
                            .boolean("exact", bytes == wanted * per_count).num("was", static_cast<long long>(was)).done());
    }
    void* give(std::size_t bytes, std::size_t align)
    {
        if (fail == "throw" || bytes > 100000) throw std::bad_alloc();
        if (fail == "null") return nullptr;
        void* p = nullptr;
        if (posix_memalign(&p, align < sizeof(void*) ? sizeof(void*) : align, bytes ? bytes : 1) != 0) throw std::bad_alloc();
        return p;
    }
    void* do_allocate(std::size_t bytes, std::size_t align) override { return note("alloc", bytes, align, 0), give(bytes, align); }
    void  do_deallocate(void* p, std::size_t bytes, std::size_t align) override { note("free", bytes, align, 0), std::free(p); }
    void* do_reallocate(void* p, std::size_t was, std::size_t bytes, std::size_t align) override
    {
        note("realloc", bytes, align, was);
        void* q = give(bytes, align);
        if (q != nullptr) std::memcpy(q, p, was < bytes ? was : bytes), std::free(p);
        return q;
    }
    std::size_t do_max_size() const noexcept override { return id == 1 ? 100 : 1000; }
    bool        do_is_equal(const pmr::memory_resource& o) const noexcept override
    {
        const auto* r = dynamic_cast<const Res*>(&o);
        return r != nullptr && r->cls == cls;
    }
};
int id_of(pmr::memory_resource* r)
{
    const auto* q = dynamic_cast<Res*>(r);
    return q == nullptr ? -1 : q->id;
}

// -- arguments and probes
struct Arg
{
    int v;
    explicit Arg(int x) : v(x) {}
    Arg(const Arg& o) : v(o.v) {}
    Arg(Arg&& o) : v(o.v) { o.v = -1; }
    ~Arg() { v = -7; }
};
struct Boom {};
constexpr int BOMB = 99;
std::vector<std::string> seen;
int                      alive = 0;
template <typename A> std::string show()
{
    return std::is_lvalue_reference<A>::value ? (std::is_const<std::remove_reference_t<A>>::value ? "cl" : "l")
                                              : (std::is_const<std::remove_reference_t<A>>::value ? "cr" : "r");
}
template <typename A> std::string saw(A&& a) { return J().str("c", show<A>()).num("v", a.v).done(); }
template <typename A> using IsArg = std::enable_if_t<std::is_same<std::decay_t<A>, Arg>::value, int>;

struct Core
{
    int magic{0};
    template <typename... As> void made(const char* form, pmr::memory_resource* r, As&&... as)
    {
        std::string list;
        bool        boom = false;
        int         x[]  = {0, (list += (list.empty() ? "" : ",") + saw(std::forward<As>(as)), boom = boom || as.v == BOMB, 0)...};
        (void) x;
        seen.push_back(J().str("form", form).num("res", r == nullptr ? 0 : id_of(r)).raw("args", "[" + list + "]").done());
        if (boom) throw Boom{};
        alive++;
        magic = 0x600D;
    }
    Core()                       = default;
    Core(const Core&)            = delete;
    Core& operator=(const Core&) = delete;
    ~Core()
    {
        if (magic == 0x600D) alive--;
        magic = 0;
    }
};
using CPA = PA<char>;
struct Picky  // an allocator that only converts from one kind of polymorphic allocator
{
    pmr::memory_resource* r;
    Picky(const PA<int>& a) : r(a.resource()) {}
    pmr::memory_resource* resource() const { return r; }
};
#define PLAIN(P)                                                                                                              \
    P() { made("none", nullptr); }                                                                                             \
    template <typename A, IsArg<A> = 0> P(A&& a) { made("none", nullptr, std::forward<A>(a)); }                                \
    template <typename A, typename B, IsArg<A> = 0, IsArg<B> = 0> P(A&& a, B&& b) { made("none", nullptr, std::forward<A>(a), std::forward<B>(b)); }
#define LEAD0(P, AL) \
    P(std::allocator_arg_t, const AL& m) { made("lead", m.resource()); }
#define LEAD(P, AL)                                                                                                           \
    LEAD0(P, AL)                                                                                                               \
    template <typename A, IsArg<A> = 0> P(std::allocator_arg_t, const AL& m, A&& a) { made("lead", m.resource(), std::forward<A>(a)); } \
    template <typename A, typename B, IsArg<A> = 0, IsArg<B> = 0> P(std::allocator_arg_t, const AL& m, A&& a, B&& b)           \
    {                                                                                                                          \
        made("lead", m.resource(), std::forward<A>(a), std::forward<B>(b));                                                    \
    }
#define TRAIL(P, AL)                                                                                                          \
    template <typename A, IsArg<A> = 0> P(A&& a, const AL& m) { made("trail", m.resource(), std::forward<A>(a)); }             \
    template <typename A, typename B, IsArg<A> = 0, IsArg<B> = 0> P(A&& a, B&& b, const AL& m)                                 \
    {                                                                                                                          \
        made("trail", m.resource(), std::forward<A>(a), std::forward<B>(b));                                                   \
    }
#define TRAIL0(P, AL) \
    explicit P(const AL& m) { made("trail", m.resource()); }
struct No : Core { PLAIN(No) };
struct Lead : Core { using allocator_type = CPA; PLAIN(Lead) LEAD(Lead, CPA) };
struct Trail : Core { using allocator_type = CPA; PLAIN(Trail) TRAIL0(Trail, CPA) TRAIL(Trail, CPA) };
struct Both : Core { using allocator_type = CPA; PLAIN(Both) LEAD(Both, CPA) TRAIL0(Both, CPA) TRAIL(Both, CPA) };
struct Mix : Core { using allocator_type = CPA; PLAIN(Mix) LEAD0(Mix, CPA) TRAIL(Mix, CPA) };
struct Fussy : Core { using allocator_type = Picky; PLAIN(Fussy) TRAIL0(Fussy, Picky) TRAIL(Fussy, Picky) };
template <typename A, typename B>
struct Derived : std::pair<A, B>
{
    int extra{77};
    template <typename X, typename Y>
    Derived(X&& x, Y&& y) : std::pair<A, B>(std::piecewise_construct, std::forward_as_tuple(std::forward<X>(x)), std::forward_as_tuple(std::forward<Y>(y))) {}
    ~Derived() { extra = 0; }
};
bool whole(const Core& c) { return c.magic == 0x600D; }
template <typename A, typename B> bool whole(const std::pair<A, B>& p) { return whole(p.first) && whole(p.second); }
template <typename A, typename B> bool whole(const Derived<A, B>& p) { return whole(p.first) && whole(p.second) && p.extra == 77; }

template <typename F> void kind(const std::string& k, F&& f)
{
    if (k == "no") f(static_cast<No*>(nullptr));
    else if (k == "lead") f(static_cast<Lead*>(nullptr));
    else if (k == "trail") f(static_cast<Trail*>(nullptr));
    else if (k == "both") f(static_cast<Both*>(nullptr));
    else if (k == "mix") f(static_cast<Mix*>(nullptr));
    else if (k == "picky") f(static_cast<Fussy*>(nullptr));
    else bad_script("kind");
}

struct Given
{
    std::string c;
    int         v;
};
std::string show(const std::vector<Given>& g)
{
    std::string o;
    for (const auto& x : g) o += (o.empty() ? "" : ",") + J().str("c", x.c).num("v", x.v).done();
    return "[" + o + "]";
}
template <typename F> void pass(const Given& g, Arg& a, F&& f)
{
    if (g.c == "l") f(a);
    else if (g.c == "cl") f(static_cast<const Arg&>(a));
    else f(std::move(a));
}

// The object under construction: storage, and what came of it.
template <typename U, typename Al, typename F>
void make(Al& al, J& j, F&& f)
{
    struct Tidy
    {
        void* p;
        ~Tidy() { std::free(p); }
    } tidy{std::malloc(sizeof(U))};
    U*   p   = static_cast<U*>(tidy.p);
    bool all = true;
    std::memset(tidy.p, 0xEE, sizeof(U));
    seen.clear();
    alive       = 0;
    int         now = 0;
    const char* r   = "ok";
    try
    {
        f(p);
        all = whole(*p), now = alive;
        al.destroy(p);
        all = all && alive == 0;
    }
    catch (const Boom&)
    {
        r = "err", now = alive;
    }
    std::string o;
    for (const auto& s : seen) o += (o.empty() ? "" : ",") + s;
    j.str("r", r).raw("log", "[" + o + "]").boolean("whole", all).num("alive", now);
}

struct Block
{
    void*       p{nullptr};
    int         t{0};
    std::size_t n{0};
    int         r{0};
};
class Run
{
    Res                                res_[3]{{1, 1}, {2, 2}, {3, 2}};
    std::unique_ptr<CPA>               al_[2];
    Block                              blk_[2];

    static std::size_t count(long long n, std::size_t size)
    {
        const std::size_t top = static_cast<std::size_t>(-1) / size;
        return n == -1 ? top : n == -2 ? top + 1 : static_cast<std::size_t>(n);
    }
    template <typename F> static const char* attempt(F&& f)
    {
        try
        {
            return f() ? "ok" : "null";
        }
        catch (const std::bad_array_new_length&)
        {
            return "length";
        }
        catch (const std::bad_alloc&)
        {
            return "bad";
        }
    }
    static std::vector<Given> args(const Op& q, std::size_t& k)
    {
        std::vector<Given> g;
        for (long long n = q.at(k++); n > 0; n--, k += 2) g.push_back({q.w.at(k), static_cast<int>(q.at(k + 1))});
        return g;
    }
#if GROUP == 0
    void one(const Op& q, J& j)  // a t k n (c v)*
    {
        std::size_t k = 3;
        const auto  g = args(q, k);
        Arg         x(g.size() > 0 ? g[0].v : 0), y(g.size() > 1 ? g[1].v : 0);
        j.num("t", q.at(1)).str("k", q.w.at(2)).raw("x", show(g));
        elem(q.at(1), [&](auto t) {
            PA<ElemT<decltype(t)::value == 4 ? 1 : decltype(t)::value>> al(*al_[q.at(0) - 1]);
            kind(q.w.at(2), [&](auto* type) {
                using U = std::remove_pointer_t<decltype(type)>;
                make<U>(al, j, [&](U* p) {
                    if (g.empty()) return al.construct(p);
                    pass(g[0], x, [&](auto&& a) {
                        if (g.size() == 1) return al.construct(p, std::forward<decltype(a)>(a));
                        pass(g[1], y, [&](auto&& b) { al.construct(p, std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); });
                    });
                });
            });
        });
    }
    void pair(const Op&, J&, bool) { bad_script("pairs are in other groups"); }
#else
    void one(const Op&, J&) { bad_script("single objects are in group 0"); }
    // f is given a tuple of references
    template <typename F> static void refs(const std::vector<Given>& g, Arg& x, Arg& y, F&& f)
    {
        if (g.empty()) f(std::tuple<>());
        else if (g.size() == 1) f(std::forward_as_tuple(static_cast<const Arg&>(x)));
        else f(std::forward_as_tuple(x, std::move(y)));
    }
    template <typename F> static void vals(const std::vector<Given>& g, F&& f)
    {
        if (g.empty()) f(std::tuple<>());
        else if (g.size() == 1) f(std::make_tuple(Arg(g[0].v)));
        else f(std::make_tuple(Arg(g[0].v), Arg(g[1].v)));
    }
    void pair(const Op& q, J& j, bool derived)  // a t k l how n (c v)* n (c v)*
    {
        std::size_t k = 5;
        const auto  g = args(q, k), h = args(q, k);
        const auto& how = q.w.at(4);
        j.num("t", q.at(1)).str("k", q.w.at(2)).str("l", q.w.at(3)).str("how", how).raw("x", show(g)).raw("y", show(h));
        Arg x(g.size() > 0 ? g[0].v : 0), x2(g.size() > 1 ? g[1].v : 0), y(h.size() > 0 ? h[0].v : 0), y2(h.size() > 1 ? h[1].v : 0);
        using A = std::tuple_element_t<GROUP - 1, std::tuple<No, Lead, Trail, Both, Mix, Fussy>>;
        kind(q.w.at(3), [&](auto* type) {
            using B = std::remove_pointer_t<decltype(type)>;
            auto with = [&](auto al) {
                if (derived)
                {
                    using U = Derived<A, B>;
                    return make<U>(al, j, [&](U* p) {
                        pass(g[0], x, [&](auto&& a) { pass(h[0], y, [&](auto&& b) { al.construct(p, std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); }); });
                    });
                }
                using U = std::pair<A, B>;
                make<U>(al, j, [&](U* p) {
                    std::pair<Arg, Arg> from(x, y);
                    if (how == "none") al.construct(p);
                    else if (how == "two")
                        pass(g[0], x, [&](auto&& a) { pass(h[0], y, [&](auto&& b) { al.construct(p, std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); }); });
                    else if (how == "cpair") al.construct(p, static_cast<const std::pair<Arg, Arg>&>(from));
                    else if (how == "lpair") al.construct(p, from);
                    else if (how == "rpair") al.construct(p, std::move(from));
                    else return this->pieces(std::integral_constant<bool, std::is_same<decltype(al), PA<int>>::value>{}, al, p, how, g, h, x, x2, y, y2);
                });
            };
            if (q.at(1) == 2) with(PA<int>(*al_[q.at(0) - 1]));
            else with(CPA(*al_[q.at(0) - 1]));
        });
    }
    template <typename Al, typename U>
    void pieces(std::false_type, Al&, U*, const std::string&, const std::vector<Given>&, const std::vector<Given>&, Arg&, Arg&, Arg&, Arg&) { bad_script("element type"); }
    template <typename Al, typename U>
    void pieces(std::true_type, Al& al, U* p, const std::string& how, const std::vector<Given>& g, const std::vector<Given>& h, Arg& x, Arg& x2, Arg& y, Arg& y2)
    {
        if (how == "refs")
            refs(g, x, x2, [&](auto&& a) { refs(h, y, y2, [&](auto&& b) { al.construct(p, std::piecewise_construct, std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); }); });
        else if (how == "vals")
            vals(g, [&](auto&& a) { vals(h, [&](auto&& b) { al.construct(p, std::piecewise_construct, std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); }); });
        else bad_script("how");
    }
#endif

public:
    Run()
    {
        al_[0].reset(new CPA(&res_[0]));
        al_[1].reset(new CPA(&res_[1]));
        emit(J().str("op", "cfg").raw("eq", "[1,2,2]").raw("max", "[100,1000,1000]").raw("size", "[1,4," + std::to_string(sizeof(Twelve)) + "," + std::to_string(sizeof(Wide)) + "]")
                 .raw("align", "[1,4," + std::to_string(alignof(Twelve)) + "," + std::to_string(alignof(Wide)) + "]"));
    }
    ~Run()
    {
        for (auto& b : blk_)
            if (b.r != 0) std::free(b.p);
    }
    void step(const Op& q)
    {
        const auto& n = q.name;
        J           j;
        j.str("op", n);
        calls.clear();
        fail = "ok";
        if (n == "alloc")  // a b t n fail
        {
            Block& b = blk_[q.at(1) - 1];
            if (b.r != 0) return;
            fail = q.w.at(4);
            j.num("a", q.at(0)).num("b", q.at(1)).num("t", q.at(2)).num("n", q.at(3)).str("fail", fail);
            elem(q.at(2), [&](auto t) {
                using T   = ElemT<decltype(t)::value>;
                per_count = sizeof(T), wanted = count(q.at(3), sizeof(T));
                PA<T> al(*al_[q.at(0) - 1]);
                j.str("r", attempt([&] {
                    T* p = al.allocate(wanted);
                    if (p != nullptr) b.p = p, b.t = decltype(t)::value, b.n = wanted, b.r = 1;
                    return p != nullptr;
                }));
            });
        }
        else if (n == "free" || n == "realloc")  // a b; a b n fail
        {
            Block& b = blk_[q.at(1) - 1];
            if (b.r == 0) return;
            const auto* from = static_cast<Res*>(al_[q.at(0) - 1]->resource());
            if (n == "realloc") fail = q.w.at(3);
            // only through an allocator that is equal to the one the block is from
            if (from->cls != owner_[q.at(1) - 1]) return;
            j.num("a", q.at(0)).num("b", q.at(1));
            if (n == "realloc") j.num("n", q.at(2)).str("fail", fail);
            elem(b.t, [&](auto t) {
                using T   = ElemT<decltype(t)::value>;
                per_count = sizeof(T), wanted = n == "free" ? b.n : count(q.at(2), sizeof(T));
                PA<T> al(*al_[q.at(0) - 1]);
                j.str("r", attempt([&] {
                    if (n == "free")
                    {
                        al.deallocate(static_cast<T*>(b.p), b.n);
                        b = Block{};
                        return true;
                    }
                    T* p = al.reallocate(static_cast<T*>(b.p), b.n, wanted);
                    if (p != nullptr) b.p = p, b.n = wanted;
                    return p != nullptr;
                }));
            });
        }
        else if (n == "max")  // a t
        {
            j.num("a", q.at(0)).num("t", q.at(1));
            elem(q.at(1), [&](auto t) { j.num("ret", static_cast<long long>(PA<ElemT<decltype(t)::value>>(*al_[q.at(0) - 1]).max_size())); });
        }
        else if (n == "copy")  // s d how
        {
            CPA& s = *al_[q.at(0) - 1];
            j.num("s", q.at(0)).num("d", q.at(1));
            std::unique_ptr<CPA> r;
            switch (q.at(2))
            {
            case 0: r.reset(new CPA(s)); break;
            case 1: r.reset(new CPA(PA<Wide>(PA<int>(s)))); break;
            case 2: r.reset(new CPA(s.select_on_container_copy_construction())); break;
            default: r.reset(new CPA(typename std::allocator_traits<CPA>::template rebind_alloc<Twelve>(std::move(s))));
            }
            al_[q.at(1) - 1] = std::move(r);
        }
        else if (n == "make")  // d r
        {
            al_[q.at(0) - 1].reset(new CPA(&res_[q.at(1) - 1]));
            j.num("d", q.at(0)).num("res", q.at(1));
        }
        else if (n == "eq")  // s d how
        {
            const CPA &s = *al_[q.at(0) - 1], &d = *al_[q.at(1) - 1];
            const PA<int> e(d);
            j.num("s", q.at(0)).num("d", q.at(1)).boolean("eq", q.at(2) ? s == e : s == d).boolean("ne", q.at(2) ? s != e : s != d);
        }
        else if (n == "one") { j.num("a", q.at(0)), one(q, j); }
        else if (n == "pair" || n == "deriv") { j.num("a", q.at(0)), pair(q, j, n == "deriv"); }
        else { bad_script(n); }
        for (int k = 0; k < 2; k++)
            if (n == "alloc" && q.at(1) == k + 1 && blk_[k].r != 0) owner_[k] = static_cast<Res*>(al_[q.at(0) - 1]->resource())->cls;
        std::string o;
        for (const auto& c : calls) o += (o.empty() ? "" : ",") + c;
        emit(j.raw("calls", "[" + o + "]").raw("al", "[" + std::to_string(id_of(al_[0]->resource())) + "," + std::to_string(id_of(al_[1]->resource())) + "]"));
    }

private:
    int owner_[2]{0, 0};
};
void history(const Op& hdr, const std::vector<Op>& ops)
{
    (void) hdr;
    Run r;
    for (const auto& o : ops) r.step(o);
}
}  // namespace

int main(int argc, char** argv) { return drive(argc, argv, history); }
