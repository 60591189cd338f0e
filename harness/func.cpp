// Drives pools of polymorphic function wrappers. GROUP: storage kind; SIG: call signature.
#include "logres.hpp"
#include "toks.hpp"

#include "cetl/pmr/function.hpp"

#include <array>

using namespace vh;

static constexpr int NRES = 2;
struct Pool
{
    std::array<LogRes, NRES> res;
    long                     fail_in{0};
    bool                     failed{false};
};
static Pool* pool = nullptr;
struct Res
{
    int   id{0};
    void* allocate(std::size_t n, std::size_t al)
    {
        auto& led = pool->res[static_cast<std::size_t>(id - 1)].led;
        if (pool->fail_in > 0 && --pool->fail_in == 0)
        {
            pool->failed = true;
            led.fail_in  = 1;
        }
        return led.allocate(n, al);
    }
    void deallocate(void* p, std::size_t n, std::size_t al)
    {
        pool->res[static_cast<std::size_t>(id - 1)].led.deallocate(p, n, al);
    }
};
static Res res_of[NRES + 1];

static std::vector<std::array<int, 3>> calls;  // every invocation of any target
static int                             reach(int v, int b, int x)
{
    calls.push_back({{v, b, x}});
    return (v * 10 + b) * 1000 + x;
}

#if SIG == 1
using Arg = Tok<false>;
using Sig = int(Arg, int&);
#    define RESULT int
#    define RETURN(code) return code
static int arg_value(const Arg& a) { return a.get(); }
#else
using Arg = int;
using Sig = void(Arg, int&);
#    define RESULT void
#    define RETURN(code) return
static int arg_value(int a) { return a; }
#endif

template <int Pad>
struct Target
{
    Tok<false, Pad> t;
    int             b{0};
    explicit Target(int v)
        : t(v)
    {
    }
    RESULT operator()(Arg x, int& out)
    {
        const int code = reach(t.get(), b, arg_value(x));
        b              = 1 - b;
        out            = code;
        RETURN(code);
    }
};
template <int V>
RESULT plain(Arg x, int& out)
{
    const int code = reach(V, 0, arg_value(x));
    out            = code;
    RETURN(code);
}
using Fn                = RESULT (*)(Arg, int&);
static constexpr Fn fns[] = {plain<0>, plain<1>, plain<2>, plain<3>, plain<4>, plain<5>, plain<6>, plain<7>, plain<8>, plain<9>};

#if GROUP == 1
using PMR                       = void;
static constexpr std::size_t FP = 64;
#elif GROUP == 2
using PMR                       = Res;
static constexpr std::size_t FP = 0;
#else
using PMR                       = Res;
static constexpr std::size_t FP = 64;
#endif
static constexpr bool HAS_PMR = !std::is_void<PMR>::value;
using F                       = cetl::pmr::function<Sig, FP, PMR>;

#if GROUP == 1
static F* make_empty(void* at, int) { return new (at) F(); }
template <typename T>
F* make_target(void* at, int, T&& t)
{
    return new (at) F(std::forward<T>(t));
}
static int  mr_of(const F&) { return 0; }
static void reset_to(F&, int) {}
#else
static F* make_empty(void* at, int m) { return new (at) F(&res_of[m]); }
template <typename T>
F* make_target(void* at, int m, T&& t)
{
    return new (at) F(&res_of[m], std::forward<T>(t));
}
static int mr_of(const F& f)
{
    for (int k = 1; k <= NRES; ++k)
    {
        if (f.get_memory_resource() == &res_of[k]) return k;
    }
    return -3000;
}
static void reset_to(F& f, int m) { f.reset(&res_of[m]); }
#endif

struct Cell
{
    alignas(F) unsigned char raw[sizeof(F)];
    F* p{nullptr};
};

struct Run
{
    std::vector<Cell*> cell;

    // g(target) with an lvalue (how odd) or rvalue target of kind k
    template <typename A, typename G>
    void with(A&& arm, long long how, G&& g, int v, std::true_type /*large*/)
    {
        Target<63> t(v);
        arm();
        if (how % 2 != 0)
        {
            const Target<63>& c = t;
            g(c);
        }
        else g(std::move(t));
    }
    template <typename A, typename G>
    void with(A&&, long long, G&&, int, std::false_type)
    {
    }
    template <typename A, typename G>
    void with_target(A&& arm, long long k, long long how, int v, G&& g)
    {
        if (k == 1)
        {
            Target<0> t(v);
            arm();
            if (how % 2 != 0)
            {
                const Target<0>& c = t;
                g(c);
            }
            else g(std::move(t));
        }
        else if (k == 3)
        {
            arm();
            g(fns[v % 10]);
        }
        else with(arm, how, g, v, std::integral_constant<bool, HAS_PMR>{});
    }

    void run(const Op& hdr, const std::vector<Op>& ops)
    {
        const std::size_t n = static_cast<std::size_t>(hdr.at(0));
        Pool              pl;
        pool = &pl;
        for (auto& r : pl.res)
        {
            r.led.null_on_failure = hdr.at(1) != 0;
            r.led.record          = false;
        }
        for (int k = 0; k <= NRES; ++k) res_of[k].id = k;
        Fault::arm(0);
        Fault::live() = 0;
        calls.clear();
        for (std::size_t i = 0; i < n; ++i)
        {
            void* p = std::malloc(sizeof(Cell));
            std::memset(p, 0xEE, sizeof(Cell));
            cell.push_back(new (p) Cell);
        }
        J j;
        j.str("op", "cfg").boolean("pmr", HAS_PMR).num("slots", static_cast<long long>(n));
#if defined(__cpp_exceptions)
        j.boolean("exc", true);
#else
        j.boolean("exc", false);
#endif
        j.raw("keeps", "[true,true,false]");
        j.raw("big", FP == 0 ? "[true,true,true]" : HAS_PMR ? "[false,true,false]" : "[false,false,false]");
        emit(j);
        for (const auto& o : ops) step(o);
        for (std::size_t i = 1; i <= n; ++i)
        {
            step(parse("call n 0 " + std::to_string(i) + " 7"));
            step(parse("dest n 0 " + std::to_string(i)));
        }
        for (auto* c : cell) std::free(c);
        cell.clear();
    }

    void step(const Op& o)
    {
        const char        f = o.w.at(0)[0];
        const std::size_t s = static_cast<std::size_t>(o.at(2));
        if (s < 1 || s > cell.size()) bad_script("slot");
        Cell&                  x = *cell[s - 1];
        std::vector<long long> a(o.a.begin() + 3, o.a.end());
        auto        other = [&]() -> Cell& { return *cell.at(static_cast<std::size_t>(a.at(0)) - 1); };
        const auto& nm    = o.name;

        const bool makes = nm == "new" || nm == "newt" || nm == "copynew" || nm == "movenew";
        if (makes == (x.p != nullptr)) return;
        if ((nm == "copynew" || nm == "movenew" || nm == "copya" || nm == "movea" || nm == "swap") && other().p == nullptr) return;
        if (nm == "resetmr" && !HAS_PMR) return;
        if (nm == "newt" && a.at(1) == 2 && !HAS_PMR) return;
        if (nm == "store" && a.at(0) == 2 && !HAS_PMR) return;
#if !defined(__cpp_exceptions)
        if (nm == "call" && !static_cast<bool>(*x.p)) return;
#endif
        std::string      r{"ok"};
        std::vector<int> ret;
        bool             wrong = false;
        calls.clear();
        pool->failed = false;
        auto arm     = [&] {
            pool->fail_in = f == 'a' ? o.at(1) : 0;
            Fault::arm(f == 'e' ? o.at(1) : 0);
        };
        const auto go = [&] {
            if (nm == "new") x.p = make_empty(x.raw, static_cast<int>(a.at(0)));
            else if (nm == "newt")
            {
                with_target(arm, a.at(1), a.size() > 3 ? a[3] : 0, static_cast<int>(a.at(2)), [&](auto&& t) {
                    x.p = make_target(x.raw, static_cast<int>(a.at(0)), std::forward<decltype(t)>(t));
                });
            }
            else if (nm == "store")
            {
                with_target(arm, a.at(0), a.size() > 2 ? a[2] : 0, static_cast<int>(a.at(1)), [&](auto&& t) {
                    wrong = &(*x.p = std::forward<decltype(t)>(t)) != x.p;
                });
            }
            else if (nm == "copynew")
            {
                arm();
                x.p = a.size() > 1 && a[1] != 0 ? new (x.raw) F(*other().p) : new (x.raw) F(const_cast<const F&>(*other().p));
            }
            else if (nm == "movenew") x.p = new (x.raw) F(std::move(*other().p));
            else if (nm == "copya")
            {
                arm();
                wrong = &(a.size() > 1 && a[1] != 0 ? *x.p = *other().p : *x.p = const_cast<const F&>(*other().p)) != x.p;
            }
            else if (nm == "movea") wrong = &(*x.p = std::move(*other().p)) != x.p;
            else if (nm == "swap")
            {
                if (a.size() > 1 && a[1] != 0) std::swap(*x.p, *other().p);
                else x.p->swap(*other().p);
            }
            else if (nm == "reset")
            {
                if (!a.empty() && a[0] != 0) wrong = &(*x.p = nullptr) != x.p;
                else x.p->reset();
            }
            else if (nm == "resetmr") reset_to(*x.p, static_cast<int>(a.at(0)));
            else if (nm == "dest")
            {
                x.p->~F();
                x.p = nullptr;
                std::memset(x.raw, 0xEE, sizeof(x.raw));
            }
            else if (nm == "call")
            {
                int      out = -1;
                const F& c   = *x.p;
#if SIG == 1
                const int code = c(Arg(static_cast<int>(a.at(0))), out);
#else
                c(static_cast<int>(a.at(0)), out);
                const int code = out;
#endif
                wrong = code != out;
                ret   = {code / 10000, code / 1000 % 10, code % 1000};
            }
            else bad_script("op " + nm);
        };
#if defined(__cpp_exceptions)
        try
        {
            go();
        } catch (const ElemError&)
        {
            r = "elem";
        } catch (const std::bad_function_call&)
        {
            r = "bad";
        } catch (const std::bad_alloc&)
        {
            r = "alloc";
        }
#else
        go();
        if (pool->failed) r = "alloc";
#endif
        const bool fired = pool->failed || Fault::fired();
        pool->fail_in    = 0;
        Fault::arm(0);
        if (wrong) r = "wrong";
        std::string post{"["}, lg{"["};
        for (auto& c : calls)
        {
            if (lg.size() > 1) lg += ',';
            lg += "[" + std::to_string(c[0]) + "," + std::to_string(c[1]) + "," + std::to_string(c[2]) + "]";
        }
        for (auto& c : cell)
        {
            if (post.size() > 1) post += ',';
            J p;
            p.boolean("on", c->p != nullptr);
            if (c->p != nullptr)
            {
                p.boolean("e", static_cast<bool>(*c->p)).boolean("x", c->p->valueless_by_exception()).num("mr", mr_of(*c->p));
            }
            post += p.done();
        }
        std::vector<std::size_t> bl;
        for (auto& m : pool->res) bl.push_back(m.led.live.size());
        J j;
        j.str("op", nm).num("s", static_cast<long long>(s)).list("a", a).str("r", r).list("ret", ret).boolean("fired", fired);
        j.num("live", Fault::live()).list("bl", bl).raw("log", lg + "]").raw("post", post + "]");
        emit(j);
    }
};

int main(int argc, char** argv)
{
    return drive(argc, argv, [](const Op& hdr, const std::vector<Op>& ops) { Run{}.run(hdr, ops); });
}
