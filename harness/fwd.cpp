// Has components make objects of arguments of every category; the objects tell what they got.
// TRIV: the objects need no destruction
// COMP: 1 optional, 2 variant, 3 type-erased variant, 4 variable-length array, 5 owning pointers, 6 function wrapper
#include "common.hpp"

#include <functional>
#include <initializer_list>
#include <memory>
#include <type_traits>
#include <utility>

#if COMP == 1
#    include "cetl/pf17/optional.hpp"
#elif COMP == 2
#    include "cetl/pf17/variant.hpp"
#elif COMP == 3
#    include "cetl/unbounded_variant.hpp"
#    include "cetl/pf17/cetlpf.hpp"
#elif COMP == 4
#    include "cetl/variable_length_array.hpp"
#    include "cetl/pf17/cetlpf.hpp"
#elif COMP == 5
#    include "cetl/pf17/cetlpf.hpp"
#    include "cetl/pmr/memory.hpp"
#    include "cetl/pmr/interface_ptr.hpp"
#else
#    include "cetl/pmr/function.hpp"
#    include "cetl/pf17/cetlpf.hpp"
#endif

using namespace vh;

namespace
{
std::vector<std::string> saw;
std::vector<int>         list;
int                      made = 0, set_ = 0, copies = 0;

struct A
{
    int v;
    explicit A(int x) : v(x) {}
    A(const A& o) : v(o.v) { copies++; }
    A(A&& o) noexcept : v(o.v) { o.v = -1; }
    A& operator=(const A&) = delete;
    ~A() { v = -7; }
};
template <typename T> const char* cat()
{
    return std::is_lvalue_reference<T>::value ? (std::is_const<std::remove_reference_t<T>>::value ? "cl" : "l")
                                              : (std::is_const<std::remove_reference_t<T>>::value ? "cr" : "r");
}
template <typename T> void see(T&& x) { saw.push_back(J().str("c", cat<T>()).num("v", x.v).done()); }
template <typename... Ts> void got(Ts&&... xs)
{
    int a[] = {0, (see(std::forward<Ts>(xs)), 0)...};
    (void) a;
}
template <typename T> using IsA = std::enable_if_t<std::is_same<std::decay_t<T>, A>::value, int>;

// Easy: a single argument converts; otherwise it takes an explicit conversion
struct Base
{
#ifndef TRIV
    virtual ~Base() = default;
#endif
};
template <bool Easy> struct Fw : Base
{
    int v{0};
#if COMP == 3
    static constexpr cetl::type_id _get_type_id_() { return {{9}}; }
#endif
    Fw() { made++; }
    template <typename T, IsA<T> = 0, bool E = Easy, std::enable_if_t<E, int> = 0> Fw(T&& x) : v(x.v) { made++, got(std::forward<T>(x)); }
    template <typename T, IsA<T> = 0, bool E = Easy, std::enable_if_t<!E, int> = 0> explicit Fw(T&& x) : v(x.v) { made++, got(std::forward<T>(x)); }
    template <typename T, typename U, IsA<T> = 0, IsA<U> = 0> Fw(T&& x, U&& y) { made++, got(std::forward<T>(x), std::forward<U>(y)); }
    Fw(std::initializer_list<int> l) { made++, list.assign(l.begin(), l.end()); }
    template <typename T, IsA<T> = 0> Fw(std::initializer_list<int> l, T&& x) { made++, list.assign(l.begin(), l.end()), got(std::forward<T>(x)); }
    Fw(const Fw& o) : v(o.v)
    {
        copies++;
        if (saw.empty() && v != 0) see(o);
    }
    Fw(Fw&& o) noexcept : v(o.v)
    {
        if (saw.empty() && v != 0) see(std::move(o));
        o.v = -1;
    }
    Fw& operator=(const Fw&) = delete;
    Fw& operator=(Fw&&)      = delete;
    template <typename T, IsA<T> = 0> Fw& operator=(T&& x) { return set_++, got(std::forward<T>(x)), *this; }
#ifndef TRIV
    ~Fw() override { v = -7; }
#endif
    // as a target of calls
    template <typename... Ts> int operator()(Ts&&... xs)
    {
        saw.clear();
        got(std::forward<Ts>(xs)...);
        return 5;
    }
};
using F  = Fw<true>;
using FE = Fw<false>;

struct Given
{
    std::string c;
    int         v;
};
// f(x) with x of the category
template <typename T, typename G> void as(const Given& g, T& x, G&& f)
{
    if (g.c == "l") f(x);
    else if (g.c == "cl") f(static_cast<const T&>(x));
    else if (g.c == "cr") f(static_cast<const T&&>(x));
    else f(std::move(x));
}
template <typename G> void none(const std::vector<Given>& g, G&& f)
{
    if (g.empty()) return f();
    A x(g[0].v);
    if (g.size() == 1) return as(g[0], x, [&](auto&& a) { f(std::forward<decltype(a)>(a)); });
    A y(g[1].v);
    as(g[0], x, [&](auto&& a) { as(g[1], y, [&](auto&& b) { f(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); }); });
}
template <typename G> void upto1(const std::vector<Given>& g, G&& f)
{
    if (g.empty()) return f();
    A x(g[0].v);
    as(g[0], x, [&](auto&& a) { f(std::forward<decltype(a)>(a)); });
}
template <typename G> void one(const std::vector<Given>& g, G&& f)
{
    A x(g.at(0).v);
    as(g[0], x, [&](auto&& a) { f(std::forward<decltype(a)>(a)); });
}
template <typename T, typename G> void same(const std::vector<Given>& g, G&& f)
{
    T x;
    x.v  = g.at(0).v;
    made = 0;
    as(g[0], x, [&](auto&& a) { f(std::forward<decltype(a)>(a)); });
}
#define FWD std::forward<decltype(a)>(a)...
#define FWD1 std::forward<decltype(a)>(a)

#if COMP == 1
const char* comp = "opt";
using cetl::pf17::in_place;
using cetl::pf17::make_optional;
using cetl::pf17::optional;
template <typename T, typename G> void from(const std::vector<Given>& g, G&& f)
{
    optional<A> x(in_place, g.at(0).v);
    as(g[0], x, [&](auto&& a) { f(std::forward<decltype(a)>(a)); });
}
bool pass(const std::string& n, const std::vector<Given>& g)
{
    using O = optional<F>;
    if (n == "value") return one(g, [&](auto&& a) { O o = FWD1; }), true;
    if (n == "evalue") return one(g, [&](auto&& a) { optional<FE> o(FWD1); }), true;
    if (n == "inplace") return none(g, [&](auto&&... a) { O o(in_place, FWD); }), true;
    if (n == "inplacel") return upto1(g, [&](auto&&... a) { O o(in_place, {3, 4}, FWD); }), true;
    O off, on(in_place);
    made = 0;
    if (n == "emplace") return none(g, [&](auto&&... a) { (g.size() % 2 ? on : off).emplace(FWD); }), true;
    if (n == "emplacel") return upto1(g, [&](auto&&... a) { (g.size() % 2 ? on : off).emplace({3, 4}, FWD); }), true;
    if (n == "make") return none(g, [&](auto&&... a) { auto o = make_optional<F>(FWD); }), true;
    if (n == "makev") return same<F>(g, [&](auto&& a) { auto o = make_optional(FWD1); }), true;
    if (n == "makel") return upto1(g, [&](auto&&... a) { auto o = make_optional<F>({3, 4}, FWD); }), true;
    if (n == "assignoff") return one(g, [&](auto&& a) { off = FWD1; }), true;
    if (n == "assignon") return one(g, [&](auto&& a) { on = FWD1; }), true;
    if (n == "or") return one(g, [&](auto&& a) { (void) static_cast<const O&>(off).value_or(FWD1); }), true;
    if (n == "orr") return one(g, [&](auto&& a) { (void) std::move(off).value_or(FWD1); }), true;
    if (n == "from") return from<F>(g, [&](auto&& a) { O o = FWD1; }), true;
    if (n == "efrom") return from<F>(g, [&](auto&& a) { optional<FE> o(FWD1); }), true;
    if (n == "fromoff") return from<F>(g, [&](auto&& a) { off = FWD1; }), true;
    if (n == "fromon") return from<F>(g, [&](auto&& a) { on = FWD1; }), true;
    return false;
}
#elif COMP == 2
const char* comp = "var";
using cetl::pf17::in_place_index;
using cetl::pf17::in_place_type;
struct Other {};
bool pass(const std::string& n, const std::vector<Given>& g)
{
    using V = cetl::pf17::variant<Other, F, int*>;
    if (n == "value") return one(g, [&](auto&& a) { V o(FWD1); }), true;
    if (n == "type") return none(g, [&](auto&&... a) { V o(in_place_type<F>, FWD); }), true;
    if (n == "typel") return upto1(g, [&](auto&&... a) { V o(in_place_type<F>, {3, 4}, FWD); }), true;
    if (n == "index") return none(g, [&](auto&&... a) { V o(in_place_index<1>, FWD); }), true;
    if (n == "indexl") return upto1(g, [&](auto&&... a) { V o(in_place_index<1>, {3, 4}, FWD); }), true;
    V off, on(in_place_index<1>);
    made   = 0;
    auto p = [&]() -> V& { return g.size() % 2 ? on : off; };
    if (n == "emplacet") return none(g, [&](auto&&... a) { p().template emplace<F>(FWD); }), true;
    if (n == "emplacetl") return upto1(g, [&](auto&&... a) { p().template emplace<F>({3, 4}, FWD); }), true;
    if (n == "emplacei") return none(g, [&](auto&&... a) { p().template emplace<1>(FWD); }), true;
    if (n == "emplaceil") return upto1(g, [&](auto&&... a) { p().template emplace<1>({3, 4}, FWD); }), true;
    if (n == "assignoff") return one(g, [&](auto&& a) { off = FWD1; }), true;
    if (n == "assignon") return one(g, [&](auto&& a) { on = FWD1; }), true;
    return false;
}
#elif COMP == 3
const char* comp = "uvar";
using Pmr        = cetl::pmr::memory_resource;
bool pass(const std::string& n, const std::vector<Given>& g)
{
    using V    = cetl::unbounded_variant<sizeof(F)>;
    using P    = cetl::unbounded_variant<0, true, true, 1, Pmr>;
    Pmr* const m = cetl::pmr::new_delete_resource();
    const V::in_place_type_t<F> tv{};
    const P::in_place_type_t<F> tp{};
    if (n == "inplace") return none(g, [&](auto&&... a) { V o(tv, FWD); }), true;
    if (n == "inplacel") return upto1(g, [&](auto&&... a) { V o(tv, {3, 4}, FWD); }), true;
    if (n == "make") return none(g, [&](auto&&... a) { auto o = cetl::make_unbounded_variant<F, V>(FWD); }), true;
    if (n == "makel") return upto1(g, [&](auto&&... a) { auto o = cetl::make_unbounded_variant<F, V>({3, 4}, FWD); }), true;
    if (n == "pinplace") return none(g, [&](auto&&... a) { P o(m, tp, FWD); }), true;
    if (n == "pinplacel") return upto1(g, [&](auto&&... a) { P o(m, tp, {3, 4}, FWD); }), true;
    if (n == "pmake") return none(g, [&](auto&&... a) { auto o = cetl::make_unbounded_variant<F, P>(m, FWD); }), true;
    if (n == "pmakel") return upto1(g, [&](auto&&... a) { auto o = cetl::make_unbounded_variant<F, P>(m, {3, 4}, FWD); }), true;
    V v;
    P p(m);
    if (n == "emplace") return none(g, [&](auto&&... a) { v.template emplace<F>(FWD); }), true;
    if (n == "emplacel") return upto1(g, [&](auto&&... a) { v.template emplace<F>({3, 4}, FWD); }), true;
    if (n == "pemplace") return none(g, [&](auto&&... a) { p.template emplace<F>(FWD); }), true;
    if (n == "pemplacel") return upto1(g, [&](auto&&... a) { p.template emplace<F>({3, 4}, FWD); }), true;
    if (n == "value") return same<F>(g, [&](auto&& a) { V o(FWD1); }), true;
    if (n == "pvalue") return same<F>(g, [&](auto&& a) { P o(m, FWD1); }), true;
    if (n == "assign") return same<F>(g, [&](auto&& a) { v = FWD1; }), true;
    if (n == "passign") return same<F>(g, [&](auto&& a) { p = FWD1; }), true;
    return false;
}
#elif COMP == 4
const char* comp = "vla";
bool pass(const std::string& n, const std::vector<Given>& g)
{
    using PA = cetl::pmr::polymorphic_allocator<F>;
    cetl::VariableLengthArray<F, std::allocator<F>> v{std::allocator<F>()};
    cetl::VariableLengthArray<F, PA>                p{PA(cetl::pmr::new_delete_resource())};
    if (n == "emplace") return none(g, [&](auto&&... a) { v.emplace_back(FWD); }), true;
    if (n == "pemplace") return none(g, [&](auto&&... a) { p.emplace_back(FWD); }), true;
    if (n == "push") return same<F>(g, [&](auto&& a) { v.push_back(FWD1); }), true;
    if (n == "ppush") return same<F>(g, [&](auto&& a) { p.push_back(FWD1); }), true;
    return false;
}
#elif COMP == 5
const char* comp = "owner";
bool pass(const std::string& n, const std::vector<Given>& g)
{
    cetl::pmr::polymorphic_allocator<F> al(cetl::pmr::new_delete_resource());
    if (n == "iface") return none(g, [&](auto&&... a) { auto o = cetl::pmr::InterfaceFactory::make_unique<Base>(al, FWD); }), true;
    if (n == "unique") return none(g, [&](auto&&... a) { auto o = cetl::pmr::Factory::make_unique(al, FWD); }), true;
    return false;
}
#else
const char* comp = "func";
using Pmr        = cetl::pmr::memory_resource;
bool pass(const std::string& n, const std::vector<Given>& g)
{
    using V = cetl::pmr::function<int(A&, const A&, A&&, A), sizeof(F) + 32>;
    using P = cetl::pmr::function<int(A&, const A&, A&&, A), 0, Pmr>;
    using D = cetl::pmr::function<void(A&, const A&, A&&, A), sizeof(F) + 32>;
    Pmr* const m = cetl::pmr::new_delete_resource();
    if (n == "target") return same<F>(g, [&](auto&& a) { V o(FWD1); }), true;
    if (n == "ptarget") return same<F>(g, [&](auto&& a) { P o(m, FWD1); }), true;
    V v;
    P p(m);
    if (n == "assign") return same<F>(g, [&](auto&& a) { v = FWD1; }), true;
    if (n == "passign") return same<F>(g, [&](auto&& a) { p = FWD1; }), true;
    if (n != "call" && n != "discard") return false;
    A a(g.at(0).v), b(g.at(1).v), c(g.at(2).v), d(g.at(3).v);
    v = F(), p = F();
    D y{F()};
    made = copies = 0;
    saw.clear();
    if (n == "discard") y(a, b, std::move(c), std::move(d));
    else if ((g[0].v % 2 ? v(a, b, std::move(c), std::move(d)) : p(a, b, std::move(c), std::move(d))) != 5) copies = 1000;
    return true;
}
#endif

void history(const Op&, const std::vector<Op>& ops)
{
    emit(J().str("op", "cfg").str("comp", comp));
    for (const auto& q : ops)  // pass entry n (c v)*
    {
        std::vector<Given> g;
        std::string        given;
        for (std::size_t k = 2; k + 1 < q.w.size() && g.size() < static_cast<std::size_t>(q.at(1)); k += 2)
        {
            g.push_back({q.w.at(k), static_cast<int>(q.at(k + 1))});
            given += (given.empty() ? "" : ",") + J().str("c", g.back().c).num("v", g.back().v).done();
        }
        saw.clear(), list.clear();
        made = set_ = copies = 0;
        if (!pass(q.w.at(0), g)) bad_script(q.w.at(0));
        std::string s;
        for (const auto& x : saw) s += (s.empty() ? "" : ",") + x;
        emit(J().str("op", "pass").str("entry", q.w.at(0)).raw("args", "[" + given + "]").raw("saw", "[" + s + "]").num("made", made).num("set", set_).num("copies", copies).list("il", list));
    }
}
}  // namespace

int main(int argc, char** argv) { return drive(argc, argv, history); }
