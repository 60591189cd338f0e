// Reads contents without exceptions; a read happens in a child process, which may end.
#include "common.hpp"

#include "cetl/pf17/cetlpf.hpp"
#include "cetl/pf17/optional.hpp"
#include "cetl/pf17/string_view.hpp"
#include "cetl/pf17/variant.hpp"
#include "cetl/pmr/function.hpp"
#include "cetl/rtti.hpp"
#include "cetl/unbounded_variant.hpp"

#include <csignal>
#include <exception>
#include <sys/wait.h>
#include <unistd.h>
#include <utility>

using namespace vh;
using cetl::pf17::optional;
using cetl::pf17::string_view;
using cetl::pf17::variant;
using Pmr = cetl::pmr::memory_resource;

namespace
{
constexpr int ENDED = 55;

struct One
{
    int                            n;
    int                            val() const { return n; }
    static constexpr cetl::type_id _get_type_id_() { return {{1}}; }
};
struct Common : cetl::rtti_helper<cetl::type_id_type<4>>
{
    virtual int val() const = 0;
};
template <int Id, int Pad> struct Two : cetl::rtti_helper<cetl::type_id_type<Id>, Common>
{
    unsigned char pad[Pad]{};
    int           n;
    Two(int x) : n(x) {}
    Two(const Two&)            = default;
    Two& operator=(const Two&) = default;
    int  val() const override { return n; }
};
using T1 = One;
using T2 = Two<2, 4>;
using T3 = Two<3, 40>;

// Each component: put, clear, what is held now, and the reads
struct Opt
{
    using O = optional<One>;
    O           x;
    void        put(int, int v) { x = One{v}; }
    void        clear() { x.reset(); }
    static void swap(Opt& a, Opt& b) { a.x.swap(b.x); }
    std::pair<int, int> held() const { return x ? std::make_pair(1, x->n) : std::make_pair(0, 0); }
    int         read(const std::string& e, int)
    {
        if (e == "l") return x.value().n;
        if (e == "cl") return static_cast<const O&>(x).value().n;
        if (e == "r") return std::move(x).value().n;
        if (e == "cr") return static_cast<const O&&>(x).value().n;
        if (e == "or") return static_cast<const O&>(x).value_or(One{-1}).n;
        if (e == "orr") return std::move(x).value_or(One{-1}).n;
        bad_script(e);
    }
};
struct Var
{
    using V = variant<T1, T2, T3>;
    V    x{T1{0}};
    void put(int t, int v)
    {
        if (t == 1) x = T1{v};
        if (t == 2) x.emplace<1>(v);
        if (t == 3) x = T3(v);
    }
    void        clear() { bad_script("clear"); }
    static void swap(Var& a, Var& b) { a.x.swap(b.x); }
    std::pair<int, int> held() const
    {
        return {static_cast<int>(x.index()) + 1, cetl::pf17::visit([](const auto& y) { return y.val(); }, x)};
    }
    template <std::size_t I> int as(const std::string& e)
    {
        using T    = cetl::pf17::variant_alternative_t<I, V>;
        const V& c = x;
        if (e == "il") return cetl::pf17::get<I>(x).n;
        if (e == "icl") return cetl::pf17::get<I>(c).n;
        if (e == "ir") return cetl::pf17::get<I>(std::move(x)).n;
        if (e == "icr") return cetl::pf17::get<I>(static_cast<const V&&>(x)).n;
        if (e == "tl") return cetl::pf17::get<T>(x).n;
        if (e == "tcl") return cetl::pf17::get<T>(c).n;
        if (e == "tr") return cetl::pf17::get<T>(std::move(x)).n;
        if (e == "tcr") return cetl::pf17::get<T>(static_cast<const V&&>(x)).n;
        auto get = [](auto* p) { return p != nullptr ? p->n : -1; };
        if (e == "if") return get(cetl::pf17::get_if<I>(&x));
        if (e == "cif") return get(cetl::pf17::get_if<I>(&c));
        if (e == "ift") return cetl::pf17::holds_alternative<T>(x) ? get(cetl::pf17::get_if<T>(&x)) : -1;
        if (e == "cift") return get(cetl::pf17::get_if<T>(&c));
        bad_script(e);
    }
    int read(const std::string& e, int t) { return t == 1 ? as<0>(e) : t == 2 ? as<1>(e) : as<2>(e); }
};
template <typename V, bool P> struct UVar
{
    static V made(std::true_type) { return V(cetl::pmr::new_delete_resource()); }
    static V made(std::false_type) { return V(); }
    V    x{made(std::integral_constant<bool, P>{})};
    void put(int t, int v)
    {
        if (t == 1) x = T1{v};
        if (t == 2) x.template emplace<T2>(v);
        if (t == 3) x = T3(v);
    }
    void        clear() { x.reset(); }
    static void swap(UVar& a, UVar& b) { a.x.swap(b.x); }
    std::pair<int, int> held() const
    {
        if (const auto* p = cetl::get_if<T1>(&x)) return {1, p->n};
        if (const auto* p = cetl::get_if<T2>(&x)) return {2, p->n};
        if (const auto* p = cetl::get_if<T3>(&x)) return {3, p->n};
        return {x.has_value() ? -5 : 0, 0};
    }
    template <typename T> int as(const std::string& e)
    {
        const V& c = x;
        if (e == "val") return cetl::get<T>(x).val();
        if (e == "ref") return cetl::get<T&>(x).val();
        if (e == "cref") return cetl::get<const T&>(c).val();
        if (e == "cval") return cetl::get<T>(c).val();
        if (e == "rval") return cetl::get<T>(std::move(x)).val();
        auto get = [](auto* p) { return p != nullptr ? p->val() : -1; };
        if (e == "if") return get(cetl::get_if<T>(&x));
        if (e == "cif") return get(cetl::get_if<T>(&c));
        if (e == "base") return cetl::get<Common&>(x).val();
        if (e == "cbase") return cetl::get<const Common&>(c).val();
        if (e == "bif") return get(cetl::get_if<Common>(&x));
        bad_script(e);
    }
    int read(const std::string& e, int t) { return t == 1 ? as<T1>(e) : t == 2 ? as<T2>(e) : as<T3>(e); }
};
const char letters[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10};
struct View
{
    string_view x;
    void        put(int t, int v) { x = string_view(letters + v, static_cast<std::size_t>(t)); }
    void        clear() { x = string_view(); }
    static void swap(View& a, View& b) { a.x.swap(b.x); }
    std::pair<int, int> held() const { return {static_cast<int>(x.size()), x.empty() ? 0 : x[0]}; }
    int         read(const std::string& e, int t)
    {
        const auto pos = static_cast<std::size_t>(t);
        char       to[8]{};
        if (e == "at") return x.at(pos);
        if (e == "substr") return static_cast<int>(x.substr(pos).size());
        if (e == "copy") return static_cast<int>(x.copy(to, sizeof(to), pos));
        bad_script(e);
    }
};
template <std::size_t N, typename... R> struct Fn
{
    using F = cetl::pmr::function<int(int), N, R...>;
    static F made(std::true_type) { return F(cetl::pmr::new_delete_resource()); }
    static F made(std::false_type) { return F(); }
    F           x{made(std::integral_constant<bool, (sizeof...(R) > 0)>{})};
    void        put(int, int v) { x = [v](int y) { return v + y; }; }
    void        clear() { x.reset(); }
    static void swap(Fn& a, Fn& b) { a.x.swap(b.x); }
    std::pair<int, int> held() { return x ? std::make_pair(1, x(0)) : std::make_pair(0, 0); }
    int         read(const std::string& e, int) { return e == "call" ? x(0) : static_cast<const F&>(x)(0); }
};

struct Out
{
    std::string kind;
    int         v;
};
template <typename F> Out apart(F&& f)
{
    int p[2];
    if (::pipe(p) != 0) bad_script("pipe");
    std::fflush(nullptr);
    const pid_t child = ::fork();
    if (child == 0)
    {
        std::set_terminate([] { ::_exit(ENDED); });
        const int v = f();
        if (::write(p[1], &v, sizeof(v)) != static_cast<ssize_t>(sizeof(v))) ::_exit(56);
        ::_exit(0);
    }
    ::close(p[1]);
    int        v = 0, st = 0;
    const bool got = ::read(p[0], &v, sizeof(v)) == static_cast<ssize_t>(sizeof(v));
    ::close(p[0]);
    if (::waitpid(child, &st, 0) != child) bad_script("wait");
    if (!got && ((WIFEXITED(st) && WEXITSTATUS(st) == ENDED) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT))) return {"end", 0};
    if (got && WIFEXITED(st) && WEXITSTATUS(st) == 0) return {"value", v};
    return {"crash " + std::to_string(st), 0};
}

template <typename C> void run(const std::string& comp, const std::vector<Op>& ops)
{
    C    c[2];
    auto obs = [&] {
        std::string o;
        for (auto& x : c) o += (o.empty() ? "" : ",") + J().num("t", x.held().first).num("v", x.held().second).done();
        return "[" + o + "]";
    };
    emit(J().str("op", "cfg").str("comp", comp).raw("first", obs()));
    for (const auto& q : ops)  // put s t v | clear s | copy|move|swap s d | read|ask s entry t
    {
        const auto s = static_cast<std::size_t>(q.at(0) - 1);
        J          j;
        j.str("op", q.name).num("s", q.at(0));
        if (q.name == "put") c[s].put(static_cast<int>(q.at(1)), static_cast<int>(q.at(2))), j.num("t", q.at(1)).num("v", q.at(2));
        else if (q.name == "clear") c[s].clear();
        else if (q.name == "read" || q.name == "ask")
        {
            const Out o = apart([&] { return c[s].read(q.w.at(1), static_cast<int>(q.at(2))); });
            if (o.kind.compare(0, 5, "crash") == 0) j.str("crash", o.kind);
            j.str("e", q.w.at(1)).num("t", q.at(2)).raw("out", J().boolean("end", o.kind == "end").num("v", o.kind == "value" ? o.v : -9).done());
        }
        else
        {
            const auto d = static_cast<std::size_t>(q.at(1) - 1);
            if (q.name == "copy") c[d].x = static_cast<const C&>(c[s]).x;
            else if (q.name == "move") c[d].x = std::move(c[s].x);
            else C::swap(c[s], c[d]);
            j.num("t", q.at(1));
        }
        emit(j.raw("post", obs()));
    }
}
void history(const Op& hdr, const std::vector<Op>& ops)
{
    const std::string& n = hdr.w.at(0);
    if (n == "opt") return run<Opt>(n, ops);
    if (n == "var") return run<Var>(n, ops);
    if (n == "uvar") return run<UVar<cetl::unbounded_variant<sizeof(T3)>, false>>(n, ops);
    if (n == "uvarp") return run<UVar<cetl::unbounded_variant<16, true, true, alignof(std::max_align_t), Pmr>, true>>(n, ops);
    if (n == "sv") return run<View>(n, ops);
    if (n == "fn") return run<Fn<32>>(n, ops);
    if (n == "fnp") return run<Fn<0, Pmr>>(n, ops);
    bad_script(n);
}
}  // namespace

int main(int argc, char** argv) { return drive(argc, argv, history); }
