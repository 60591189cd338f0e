// Drives pools of optionals. The value type is chosen by the history header.
#include "toks.hpp"

#include "cetl/pf17/optional.hpp"

#include <memory>
#include <type_traits>

using namespace vh;
using cetl::pf17::bad_optional_access;
using cetl::pf17::in_place;
using cetl::pf17::make_optional;
using cetl::pf17::nullopt;
using cetl::pf17::optional;

namespace
{
constexpr int NOTHING = -1000;
constexpr int WRONG   = -3000;

// what the other pool holds
struct Src : Tok<true, 3>
{
    using Base = Tok<true, 3>;
    using Base::Base;
    Src()                      = default;
    Src(const Src&)            = default;
    Src(Src&&)                 = default;
    Src& operator=(const Src&) = default;
    Src& operator=(Src&&)      = default;
    int  copied() const
    {
        const int x = get();
        Fault::tick();
        return x;
    }
    int taken()
    {
        const int x = copied();
        v           = MOVED;
        return x;
    }
};
struct Num : Src  // converts to numbers
{
    using Src::Src;
    operator int() const& { return copied(); }
    operator int() && { return taken(); }
};

int listed(std::initializer_list<int> l, int extra)
{
    for (int x : l) extra += x;
    return extra;
}

template <typename B>
struct Cv : B  // a value that can be made from Src
{
    Cv() = default;
    Cv(int x) : B(x) {}
    Cv(std::initializer_list<int> l, int x) : B(listed(l, x)) {}
    Cv(const Src& s) : B(s.copied()) {}
    Cv(Src&& s) : B(s.taken()) {}
    Cv& operator=(const Src& s) { return this->v = (this->get(), s.copied()), *this; }
    Cv& operator=(Src&& s) { return this->v = (this->get(), s.taken()), *this; }
    Cv& operator=(int x)
    {
        Fault::tick();
        return this->v = (this->get(), x), *this;
    }
};
struct Ex : Tok<true>  // only explicitly
{
    Ex() = default;
    explicit Ex(int x) : Tok<true>(x) {}
    Ex(std::initializer_list<int> l, int x) : Tok<true>(listed(l, x)) {}
    explicit Ex(const Src& s) : Tok<true>(s.copied()) {}
    explicit Ex(Src&& s) : Tok<true>(s.taken()) {}
    Ex& operator=(const Src& s) { return v = (get(), s.copied()), *this; }
    Ex& operator=(Src&& s) { return v = (get(), s.taken()), *this; }
};
struct TrivButAssign  // trivial construction, own assignment
{
    int v;
    TrivButAssign() = default;
    TrivButAssign(int x) : v(x) { Fault::tick(); }
    TrivButAssign(const TrivButAssign&) = default;
    TrivButAssign& operator=(const TrivButAssign& o)
    {
        Fault::tick();
        v = o.v;
        return *this;
    }
};
struct TrivButMove  // trivial copies, own moves
{
    int v;
    TrivButMove(int x) : v(x) { Fault::tick(); }
    TrivButMove(const TrivButMove&)            = default;
    TrivButMove& operator=(const TrivButMove&) = default;
    TrivButMove(TrivButMove&& o) : v(o.v)
    {
        Fault::tick();
        o.v = MOVED;
    }
    TrivButMove& operator=(TrivButMove&& o)
    {
        Fault::tick();
        v   = o.v;
        o.v = MOVED;
        return *this;
    }
};
struct OnlyCopies  // own copies, trivial destruction, no moves
{
    int v;
    OnlyCopies(int x) : v(x) { Fault::tick(); }
    OnlyCopies(const OnlyCopies& o) : v(o.v) { Fault::tick(); }
    OnlyCopies& operator=(const OnlyCopies& o)
    {
        Fault::tick();
        v = o.v;
        return *this;
    }
};
struct NoAssign : Tok<true>
{
    NoAssign(int x) : Tok<true>(x) {}
    NoAssign(const NoAssign& o) : Tok<true>(static_cast<const Tok<true>&>(o)) {}
    NoAssign& operator=(const NoAssign&) = delete;
};
int val(const TrivButAssign& x) { return x.v; }
int val(const TrivButMove& x) { return x.v; }
int val(const OnlyCopies& x) { return x.v; }
int val(const optional<int>& x) { return x.has_value() ? *x : WRONG; }
using vh::val;

template <typename T>
void put(T& t, int x) { t.v = (val(t), x); }
void put(int& t, int x) { t = x; }
void put(bool& t, int x) { t = x != 0; }
void put(Odd3& t, int x) { t = Odd3(x); }
void put(optional<int>& t, int x) { *t = x; }

template <typename T> struct Keeps : std::is_trivially_copyable<T> {};
template <> struct Keeps<TrivButAssign> : std::true_type {};
template <> struct Keeps<OnlyCopies> : std::true_type {};
template <> struct Keeps<NoAssign> : std::true_type {};
template <> struct Keeps<optional<int>> : std::true_type {};
template <typename T> struct Counted : std::integral_constant<bool, !std::is_trivially_destructible<T>::value> {};

struct Id
{
    template <typename X>
    X&& operator()(X&& x) const { return std::forward<X>(x); }
};
template <typename F>
bool when(std::true_type, F&& f) { return f(Id{}), true; }
template <typename F>
bool when(std::false_type, F&&) { return false; }
template <bool B>
using Bool = std::integral_constant<bool, B>;
// an operation every optional of this value type has; its absence is reported rather than a build failure
template <bool Has, typename F>
bool must(std::true_type, Bool<Has> has, long long& ret, F&& f)
{
    if (!when(has, f)) ret = WRONG;
    return true;
}
template <bool Has, typename F>
bool must(std::false_type, Bool<Has>, long long&, F&&) { return false; }
template <typename O, typename... A>
using Makes = Bool<std::is_constructible<O, A...>::value>;
template <typename O, typename A>
using Takes = Bool<std::is_assignable<O&, A>::value>;

template <typename O, typename A>
O implicit(A&& a) { return std::forward<A>(a); }

struct Ctx
{
    bool done{true};  // the value type has the operation
    long long ret{0}, def{0};
};
void arm(const Op& o)
{
    Fault::arm(o.w.at(0) == "e" ? o.at(1) : 0);
}

template <typename T>
struct Cell
{
    using O = optional<T>;
    alignas(O) unsigned char raw[sizeof(O)];
    O* p{nullptr};

    std::string obs()
    {
        J j;
        j.boolean("on", p != nullptr);
        if (p == nullptr) return j.done();
        O&               o = *p;
        const O&         c = *p;
        std::vector<int> l, w;
        if (o.has_value())
        {
            l = {val(*o), val(*c), val(*(o.operator->())), val(*(c.operator->())), val(*std::move(c)), val(*std::move(o))};
            if (std::addressof(*o) != o.operator->() || std::addressof(*o) != std::addressof(o.value()) ||
                reinterpret_cast<unsigned char*>(std::addressof(*o)) < raw || reinterpret_cast<unsigned char*>(std::addressof(*o)) >= raw + sizeof(O))
            {
                l.push_back(WRONG);
            }
        }
        auto chk = [&](auto&& f) {
            try
            {
                w.push_back(val(f()));
            }
            catch (const bad_optional_access&)
            {
                w.push_back(NOTHING);
            }
        };
        chk([&]() -> const T& { return o.value(); });
        chk([&]() -> const T& { return c.value(); });
        chk([&]() -> const T&& { return std::move(o).value(); });
        chk([&]() -> const T&& { return std::move(c).value(); });
        return j.boolean("e", c.has_value()).boolean("b", static_cast<bool>(c)).list("o", l).list("w", w).done();
    }

    // operations that involve this pool only; false: no such operation of this value type
    bool step(const Op& q, std::vector<Cell*>& all, Ctx& x)
    {
        const std::string& n   = q.name;
        const int          how = q.a.size() > 4 ? static_cast<int>(q.a.back()) : 0;
        using CC               = Bool<std::is_copy_constructible<T>::value>;
        using MC               = Bool<std::is_move_constructible<T>::value>;
        using CA               = Bool<std::is_copy_assignable<T>::value && CC::value>;
        using MA               = Bool<std::is_move_assignable<T>::value && MC::value>;
        using FromInt          = Bool<std::is_convertible<int, T>::value>;
        using AssInt           = Bool<std::is_assignable<T&, int>::value && !std::is_scalar<T>::value>;
        using Lists            = Bool<std::is_constructible<T, std::initializer_list<int>, int>::value>;
        if (n == "newd")
        {
            arm(q);
            p = q.a.size() > 3 && q.at(3) == 1 ? new (raw) O(nullopt) : new (raw) O();
            return true;
        }
        if (n == "newv")
        {
            const int v = static_cast<int>(q.at(3));
            T         t(v);
            switch (how)
            {
            case 1: return must(CC{}, Makes<O, const T&>{}, x.ret, [&](auto i) { arm(q), p = new (raw) O(i(static_cast<const T&>(t))); });
            case 2: arm(q), p = new (raw) O(in_place, v); return true;
            case 3: return must(FromInt{}, Makes<O, const int&>{}, x.ret, [&](auto i) { arm(q), p = new (raw) O(i(v)); });
            case 4: return when(MC{}, [&](auto i) { arm(q), p = new (raw) O(make_optional(std::move(i(t)))); });
            case 5: arm(q), p = new (raw) O(make_optional<T>(v)); return true;
            case 6: return when(Lists{}, [&](auto i) { arm(q), p = new (raw) O(i(in_place), {v - 7, 1}, 6); });
            case 7: return when(Lists{}, [&](auto i) { arm(q), p = new (raw) O(make_optional<T>({i(v) - 7, 1}, 6)); });
            case 8: return when(CC{}, [&](auto i) { arm(q), p = new (raw) O(make_optional(i(static_cast<const T&>(t)))); });
            case 9: return must(CC{}, Bool<std::is_convertible<const T&, O>::value>{}, x.ret, [&](auto i) { arm(q), p = new (raw) O(implicit<O>(i(static_cast<const T&>(t)))); });
            case 10: return must(MC{}, Bool<std::is_convertible<T, O>::value>{}, x.ret, [&](auto i) { arm(q), p = new (raw) O(implicit<O>(std::move(i(t)))); });
            case 11: return must(FromInt{}, Bool<std::is_convertible<int, O>::value>{}, x.ret, [&](auto i) { arm(q), p = new (raw) O(implicit<O>(i(int(v)))); });
            default: return must(MC{}, Makes<O, T>{}, x.ret, [&](auto i) { arm(q), p = new (raw) O(std::move(i(t))); });
            }
        }
        if (n == "assign")
        {
            const int v = static_cast<int>(q.at(3));
            T         t(v);
            bool      self = true, ok;
            switch (how)
            {
            case 1: ok = must(CA{}, Takes<O, const T&>{}, x.ret, [&](auto i) { arm(q), self = &(i(*p) = static_cast<const T&>(t)) == p; }); break;
            case 2: ok = must(AssInt{}, Takes<O, const int&>{}, x.ret, [&](auto i) { arm(q), self = &(i(*p) = v) == p; }); break;
            default: ok = must(MA{}, Takes<O, T>{}, x.ret, [&](auto i) { arm(q), self = &(i(*p) = std::move(t)) == p; }); break;
            }
            if (!self) x.ret = WRONG;
            return ok;
        }
        if (n == "emplace")
        {
            const int v = static_cast<int>(q.at(3));
            T         t(v);
            auto      got = [&](T& y) { x.ret = &y == p->operator->() ? val(y) : WRONG; };
            switch (how)
            {
            case 1: return when(CC{}, [&](auto i) { arm(q), got(i(*p).emplace(static_cast<const T&>(t))); });
            case 2: return when(MC{}, [&](auto i) { arm(q), got(i(*p).emplace(std::move(t))); });
            case 3: return when(Lists{}, [&](auto i) { arm(q), got(i(*p).emplace({v - 7, 1}, 6)); });
            default: arm(q), got(p->emplace(v)); return true;
            }
        }
        if (n == "copynew")
        {
            Cell& u = *all[static_cast<std::size_t>(q.at(3))];
            return must(CC{}, Makes<O, const O&>{}, x.ret, [&](auto i) {
                arm(q);
                if (how == 1)
                    p = new (raw) O(i(static_cast<const O&>(*u.p)));
                else
                    p = new (raw) O(i(*u.p));
            });
        }
        if (n == "movenew")
        {
            Cell& u = *all[static_cast<std::size_t>(q.at(3))];
            return must(MC{}, Makes<O, O>{}, x.ret, [&](auto i) { arm(q), p = new (raw) O(std::move(i(*u.p))); });
        }
        if (n == "copya")
        {
            Cell& u = *all[static_cast<std::size_t>(q.at(3))];
            return must(CA{}, Takes<O, const O&>{}, x.ret, [&](auto i) {
                arm(q);
                if (&(i(*p) = static_cast<const O&>(*u.p)) != p) x.ret = WRONG;
            });
        }
        if (n == "movea")
        {
            Cell& u = *all[static_cast<std::size_t>(q.at(3))];
            if (&u == this) return false;
            return must(MA{}, Takes<O, O>{}, x.ret, [&](auto i) {
                arm(q);
                if (&(i(*p) = std::move(*u.p)) != p) x.ret = WRONG;
            });
        }
        if (n == "swap")
        {
            Cell& u = *all[static_cast<std::size_t>(q.at(3))];
            return when(Bool<MC::value && MA::value>{}, [&](auto i) {
                using std::swap;
                arm(q);
                if (how == 1 && q.w.at(0) == "n" && &u != this)
                    swap(i(*p), *u.p);
                else
                    i(*p).swap(*u.p);
            });
        }
        if (n == "reset")
        {
            arm(q);
            if (how == 1 || q.a.back() == 1)
                *p = nullopt;
            else if (q.a.back() == 2 && MA::value)
                return when(MA{}, [&](auto i) { i(*p) = {}; });
            else
                p->reset();
            return true;
        }
        if (n == "dest")
        {
            arm(q);
            p->~O();
            std::memset(raw, 0xA5, sizeof raw);
            p = nullptr;
            return true;
        }
        if (n == "write")
        {
            const int v = static_cast<int>(q.at(3));
            if (!p->has_value()) return false;
            arm(q);
            T& y = how == 1 ? *(p->operator->()) : how == 2 ? p->value() : **p;
            put(y, v);
            return true;
        }
        if (n == "take" || n == "takeor")
        {
            const bool moving = q.w.at(3) == "TRUE" || q.w.at(3) == "true" || q.w.at(3) == "1" || q.w.at(3) == "True";
            const bool fall   = n == "takeor";
            const int  def    = std::is_same<T, bool>::value ? 1 : 777;
            x.def             = def;
            T          t(def);
            const T&   ct = t;
            const O&   co = *p;
            auto       go = [&](auto&& f) {
                arm(q);
                T y = f();
                x.ret = val(y);
            };
            if (!fall && moving && how == 1 && p->has_value()) return when(MC{}, [&](auto i) { go([&]() -> T { return *std::move(i(*p)); }); });
            if (!fall && moving) return when(MC{}, [&](auto i) { go([&]() -> T { return std::move(i(*p)).value(); }); });
            if (!fall) return when(CC{}, [&](auto i) { go([&]() -> T { return how == 1 ? i(co).value() : i(*p).value(); }); });
            if (moving && how == 1 && CC::value) return when(CC{}, [&](auto i) { go([&]() -> T { return std::move(i(*p)).value_or(ct); }); });
            if (moving) return when(MC{}, [&](auto i) { go([&]() -> T { return std::move(i(*p)).value_or(std::move(t)); }); });
            if (how == 1) return when(CC{}, [&](auto i) { go([&]() -> T { return i(co).value_or(std::move(t)); }); });
            return when(CC{}, [&](auto i) { go([&]() -> T { return i(*p).value_or(ct); }); });
        }
        bad_script(n);
    }
};

template <typename T, typename U, bool Conv>
struct Run
{
    std::vector<Cell<T>*> t;
    std::vector<Cell<U>*> u;
    std::string           kinds;

    Run(const Op& hdr)
    {
        kinds = hdr.w.at(1);
        std::string k{"["};
        for (char c : kinds)
        {
            t.push_back(c == 't' ? new Cell<T>() : nullptr);
            u.push_back(c == 'u' ? new Cell<U>() : nullptr);
            k += (k.size() > 1 ? ",\"" : "\"") + std::string(1, c) + "\"";
        }
        t.insert(t.begin(), nullptr);
        u.insert(u.begin(), nullptr);
        J    keep, c;
        bool cc = std::is_copy_constructible<T>::value, mc = std::is_move_constructible<T>::value;
        keep.boolean("t", Keeps<T>::value).boolean("u", false);
        emit(c.str("op", "cfg").raw("kind", k + "]").boolean("cc", cc).boolean("mc", mc).boolean("ca", cc && std::is_copy_assignable<T>::value)
                 .boolean("ma", mc && std::is_move_assignable<T>::value).boolean("cv", Conv).raw("keep", keep.done()).boolean("counted", Counted<T>::value));
    }
    ~Run()
    {
        for (auto* c : t)
        {
            if (c != nullptr && c->p != nullptr) c->p->~optional<T>();
            delete c;
        }
        for (auto* c : u)
        {
            if (c != nullptr && c->p != nullptr) c->p->~optional<U>();
            delete c;
        }
    }
    bool on(std::size_t s) const { return t[s] != nullptr ? t[s]->p != nullptr : u[s]->p != nullptr; }

    bool convert(const Op& q, std::size_t s, std::size_t v, Ctx& x)
    {
        const std::string& n   = q.name;
        const int          how = q.a.size() > 4 ? static_cast<int>(q.a.back()) : 0;
        using O                = optional<T>;
        using F                = optional<U>;
        using Has              = Bool<std::is_constructible<O, F&>::value && std::is_constructible<O, const F&>::value && std::is_constructible<O, F>::value &&
                         std::is_assignable<O&, F&>::value && std::is_assignable<O&, const F&>::value && std::is_assignable<O&, F>::value>;
        return must(Bool<Conv>{}, Has{}, x.ret, [&](auto i) {
            auto&   cell  = *t[s];
            auto&   from  = *u[v]->p;
            arm(q);
            if (n == "copynew" && how == 1)
                cell.p = new (cell.raw) O(i(from));
            else if (n == "copynew")
                cell.p = new (cell.raw) O(i(static_cast<const F&>(from)));
            else if (n == "movenew")
                cell.p = new (cell.raw) O(std::move(i(from)));
            else if (n == "copya" && how == 1)
                *cell.p = i(from);
            else if (n == "copya")
                *cell.p = i(static_cast<const F&>(from));
            else
                *cell.p = std::move(i(from));
        });
    }
    void step(const Op& q)
    {
        const std::size_t s    = static_cast<std::size_t>(q.at(2));
        const bool        pair = q.name == "copynew" || q.name == "movenew" || q.name == "copya" || q.name == "movea" || q.name == "swap";
        const bool        make = q.name.compare(0, 4, "newd") == 0 || q.name == "newv" || q.name == "copynew" || q.name == "movenew";
        if (s < 1 || s >= t.size()) bad_script("slot");
        if (make == on(s)) return;
        const std::size_t v = pair ? static_cast<std::size_t>(q.at(3)) : 0;
        if (pair && (v < 1 || v >= t.size() || !on(v))) return;
        if (pair && t[s] == nullptr && t[v] != nullptr) return;
        if (pair && q.name == "swap" && (t[s] == nullptr) != (t[v] == nullptr)) return;
        if (t[s] == nullptr && q.name.compare(0, 4, "take") == 0) return;
        Ctx         x;
        std::string r{"ok"};
        Fault::arm(0);
        bool ok = false;
        try
        {
            if (pair && t[s] != nullptr && u[v] != nullptr)
                ok = convert(q, s, v, x);
            else if (t[s] != nullptr)
                ok = t[s]->step(q, t, x);
            else
                ok = u[s]->step(q, u, x);
        }
        catch (const ElemError&)
        {
            ok = true, r = "elem";
        }
        catch (const bad_optional_access& e)
        {
            ok = true, r = told(e, "bad");
        }
        if (!ok) return;
        const bool fired = Fault::fired();
        Fault::arm(0);
        std::vector<long long> a;
        if (q.a.size() > 3) a.push_back(q.at(3));
        if (q.name.compare(0, 4, "take") == 0) a = {q.w.at(3) == "True" || q.w.at(3) == "true" || q.w.at(3) == "1" ? 1 : 0, x.def};
        std::string post{"["};
        for (std::size_t k = 1; k < t.size(); ++k)
        {
            post += (k > 1 ? "," : "") + (t[k] != nullptr ? t[k]->obs() : u[k]->obs());
        }
        if (x.ret == WRONG) r = "wrong";
        J j;
        emit(j.str("op", q.name).num("s", static_cast<long long>(s)).list("a", a).str("r", r).num("ret", x.ret).boolean("fired", fired)
                 .raw("post", post + "]").num("live", Fault::live()));
    }
};

template <typename T, typename U, bool Conv>
void run(const Op& hdr, const std::vector<Op>& ops)
{
    Fault::live() = 0;
    Run<T, U, Conv> r(hdr);
    for (const auto& o : ops) r.step(o);
}
void history(const Op& hdr, const std::vector<Op>& ops)
{
    switch (hdr.at(0))
    {
#if GROUP == 1
    case 1: return run<int, Num, true>(hdr, ops);
    case 2: return run<Cv<Tok<false>>, Src, true>(hdr, ops);
    case 3: return run<Cv<Tok<true>>, Src, true>(hdr, ops);
    case 4: return run<Cv<MovTok>, Src, true>(hdr, ops);
    case 5: return run<Ex, Src, true>(hdr, ops);
#else
    case 6: return run<TrivButAssign, Src, false>(hdr, ops);
    case 7: return run<TrivButMove, Src, false>(hdr, ops);
    case 8: return run<OnlyCopies, Src, false>(hdr, ops);
    case 9: return run<NoAssign, Src, false>(hdr, ops);
    case 10: return run<Odd3, Src, false>(hdr, ops);
    case 11: return run<optional<int>, Src, false>(hdr, ops);
    case 12: return run<bool, Src, false>(hdr, ops);
#endif
    default: bad_script("value type");
    }
}
}  // namespace

int main(int argc, char** argv) { return drive(argc, argv, history); }
