// Alternatives of variants: counted, self-checking values that fail on demand.
#ifndef VERIF_ALTS_HPP
#define VERIF_ALTS_HPP
#include "toks.hpp"

#include <type_traits>
#include <utility>

namespace vh
{
inline int listed(std::initializer_list<int> l, int extra)
{
    for (int x : l) extra += x;
    return extra;
}

// what alternative J can be made from; moving it and making J from it may fail
template <int J>
struct From
{
    int x;
    explicit From(int y) : x(y) {}
    From(const From&) = default;
    From(From&& o) : x(o.x) {}
    From& operator=(const From&) = default;
};
// making J from it cannot fail
template <int J>
struct Quiet
{
    int x;
};

// TC, TM: copying, moving may fail
template <int J, bool TC, bool TM>
struct Alt
{
    const Alt*    self;
    std::uint32_t magic;
    int           v;

    explicit Alt(int x) : Alt(x, nullptr) { Fault::tick(); }
    Alt(std::initializer_list<int> l, int x) : Alt(listed(l, x), nullptr) { Fault::tick(); }
    Alt(const From<J>& f) : Alt(f.x, nullptr) { Fault::tick(); }
    Alt(From<J>&& f) : Alt(f.x, nullptr) { Fault::tick(); }
    Alt(const Quiet<J>& f) noexcept : Alt(f.x, nullptr) {}
    Alt(const Alt& o) noexcept(!TC) : Alt(o.get(), nullptr)
    {
        if (TC) Fault::tick();
    }
    Alt(Alt&& o) noexcept(!TM) : Alt(o.get(), nullptr)
    {
        if (TM) Fault::tick();
        o.v = MOVED;
    }
    Alt& operator=(const Alt& o) noexcept(!TC)
    {
        const int x = (check(), o.get());
        if (TC) Fault::tick();
        v = x;
        return *this;
    }
    Alt& operator=(Alt&& o) noexcept(!TM)
    {
        const int x = (check(), o.get());
        if (TM) Fault::tick();
        o.v = MOVED;
        v   = x;
        return *this;
    }
    Alt& operator=(const From<J>& f) { return check(), Fault::tick(), v = f.x, *this; }
    Alt& operator=(From<J>&& f) { return check(), Fault::tick(), v = f.x, *this; }
    Alt& operator=(const Quiet<J>& f) noexcept { return check(), v = f.x, *this; }
    ~Alt()
    {
        check();
        --Fault::live();
        magic = 0xDEAD;
        self  = nullptr;
    }
    int get() const { return check(), v; }
    void check() const
    {
        if (magic != 0xA11FE || self != this)
        {
            std::fprintf(stderr, "value: %s\n", magic == 0xDEAD ? "used after destruction" : "not a constructed object");
            std::fflush(nullptr);
            std::_Exit(80);
        }
    }

private:
    // counts: when the delegating constructor fails, the destructor runs
    Alt(int x, std::nullptr_t) noexcept : self(this), magic(0xA11FE), v(x) { ++Fault::live(); }
};

template <int J>
struct MovAlt : Alt<J, true, false>
{
    using Base = Alt<J, true, false>;
    explicit MovAlt(int x) : Base(x) {}
    MovAlt(std::initializer_list<int> l, int x) : Base(listed(l, x)) {}
    MovAlt(const From<J>& f) : Base(f) {}
    MovAlt(From<J>&& f) : Base(std::move(f)) {}
    MovAlt(const Quiet<J>& f) noexcept : Base(f) {}
    MovAlt(MovAlt&&)            = default;
    MovAlt& operator=(MovAlt&&) = default;
    MovAlt& operator=(const From<J>& f) { return Base::operator=(f), *this; }
    MovAlt& operator=(From<J>&& f) { return Base::operator=(std::move(f)), *this; }
    MovAlt& operator=(const Quiet<J>& f) noexcept { return Base::operator=(f), *this; }
};

// trivial copies, own moves that may fail
template <int J>
struct TrivButMove
{
    int v;
    explicit TrivButMove(int x) : v(x) { Fault::tick(); }
    TrivButMove(const From<J>& f) : v(f.x) { Fault::tick(); }
    TrivButMove(const Quiet<J>& f) noexcept : v(f.x) {}
    TrivButMove(const TrivButMove&)            = default;
    TrivButMove& operator=(const TrivButMove&) = default;
    TrivButMove(TrivButMove&& o) : v(o.v)
    {
        Fault::tick();
        o.v = MOVED;
    }
    TrivButMove& operator=(TrivButMove&& o)
    {
        Fault::tick();
        v   = o.v;
        o.v = MOVED;
        return *this;
    }
    TrivButMove& operator=(const From<J>& f) { return Fault::tick(), v = f.x, *this; }
    TrivButMove& operator=(const Quiet<J>& f) noexcept { return v = f.x, *this; }
};
// own copies that may fail, no moves, trivial destruction
template <int J>
struct OnlyCopies
{
    int v;
    explicit OnlyCopies(int x) : v(x) { Fault::tick(); }
    OnlyCopies(const From<J>& f) : v(f.x) { Fault::tick(); }
    OnlyCopies(const Quiet<J>& f) noexcept : v(f.x) {}
    OnlyCopies(const OnlyCopies& o) : v(o.v) { Fault::tick(); }
    OnlyCopies& operator=(const OnlyCopies& o) { return Fault::tick(), v = o.v, *this; }
    OnlyCopies& operator=(const From<J>& f) { return Fault::tick(), v = f.x, *this; }
    OnlyCopies& operator=(const Quiet<J>& f) noexcept { return v = f.x, *this; }
};
// trivial all the way
template <int J>
struct Triv
{
    int v;
    Triv() = default;
    explicit Triv(int x) : v(x) {}
    Triv(const From<J>& f) : v(f.x) { Fault::tick(); }
    Triv(const Quiet<J>& f) noexcept : v(f.x) {}
};

template <int J, bool A, bool B> int val(const Alt<J, A, B>& x) { return x.get(); }
template <int J> int val(const MovAlt<J>& x) { return x.get(); }
template <int J> int val(const TrivButMove<J>& x) { return x.v; }
template <int J> int val(const OnlyCopies<J>& x) { return x.v; }
template <int J> int val(const Triv<J>& x) { return x.v; }

template <typename T> struct SourceOf;
template <int J, bool A, bool B> struct SourceOf<Alt<J, A, B>> : std::integral_constant<int, J> {};
template <int J> struct SourceOf<MovAlt<J>> : std::integral_constant<int, J> {};
template <int J> struct SourceOf<TrivButMove<J>> : std::integral_constant<int, J> {};
template <int J> struct SourceOf<OnlyCopies<J>> : std::integral_constant<int, J> {};
template <int J> struct SourceOf<Triv<J>> : std::integral_constant<int, J> {};

template <typename T> struct KeepsValue : std::is_trivially_copyable<T> {};
template <int J> struct KeepsValue<OnlyCopies<J>> : std::true_type {};

struct Id
{
    template <typename X>
    X&& operator()(X&& x) const { return std::forward<X>(x); }
};
template <typename F>
bool when(std::true_type, F&& f) { return f(Id{}), true; }
template <typename F>
bool when(std::false_type, F&&) { return false; }
template <bool B>
using Bool = std::integral_constant<bool, B>;
}  // namespace vh
#endif
