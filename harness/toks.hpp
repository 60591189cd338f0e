// Instrumented value types: counted, self-checking, throwing on demand.
#ifndef VERIF_TOKS_HPP
#define VERIF_TOKS_HPP
#include "common.hpp"

namespace vh
{
struct ElemError : std::exception
{
    const char* what() const noexcept override { return "elem"; }
};

// the name under which an exception is recorded: it can be copied and says something
template <typename E>
const char* told(const E& e, const char* name)
{
    const E               copy(e);
    const std::exception& x = copy;
    return x.what() != nullptr && *x.what() != '\0' ? name : "mute";
}

struct Fault
{
    static long& throw_in()
    {
        static long n = 0;
        return n;
    }
    static bool& fired()
    {
        static bool b = false;
        return b;
    }
    static long& live()
    {
        static long n = 0;
        return n;
    }
    static void arm(long n)
    {
        throw_in() = n;
        fired()    = false;
    }
    static void tick()
    {
        if (throw_in() > 0 && --throw_in() == 0)
        {
            fired() = true;
#if defined(__cpp_exceptions)
            throw ElemError();
#endif
        }
    }
};

constexpr int MOVED = -1;
constexpr int TORN  = -99;

// Non-trivial value: knows its own address, counts live objects. ThrowMove: moving may throw too.
template <bool ThrowMove, int Pad = 0, bool Copyable = true>
struct Tok
{
    const Tok*    self;
    std::uint32_t magic;
    int           v;
    char          pad[Pad + 1];

    Tok()
        : self(this)
        , magic(0xA11FE)
        , v(0)
    {
        Fault::tick();
        ++Fault::live();
    }
    Tok(int x)
        : self(this)
        , magic(0xA11FE)
        , v(x)
    {
        Fault::tick();
        ++Fault::live();
    }
    Tok(const Tok& o)
        : self(this)
        , magic(0xA11FE)
        , v(o.get())
    {
        static_assert(Copyable, "copied");
        Fault::tick();
        ++Fault::live();
    }
    Tok(Tok&& o) noexcept(!ThrowMove)
        : self(this)
        , magic(0xA11FE)
        , v(o.get())
    {
        if (ThrowMove) Fault::tick();
        o.v = MOVED;
        ++Fault::live();
    }
    Tok& operator=(const Tok& o)
    {
        static_assert(Copyable, "copied");
        check();
        const int x = o.get();
        Fault::tick();
        v = x;
        return *this;
    }
    Tok& operator=(Tok&& o) noexcept(!ThrowMove)
    {
        check();
        const int x = o.get();
        if (ThrowMove) Fault::tick();
        o.v = MOVED;
        v   = x;
        return *this;
    }
    ~Tok()
    {
        check();
        magic = 0xDEAD;
        self  = nullptr;
        --Fault::live();
    }
    void check() const
    {
        if (magic != 0xA11FE || self != this)
        {
            std::fprintf(stderr, "value: %s\n", magic == 0xDEAD ? "used after destruction" : "not a constructed object");
            std::fflush(nullptr);
            std::_Exit(80);
        }
    }
    int  get() const
    {
        check();
        return v;
    }
    bool operator==(const Tok& o) const { return get() == o.get(); }
    bool operator!=(const Tok& o) const { return get() != o.get(); }
    bool operator<(const Tok& o) const { return get() < o.get(); }
};

// Move-only value.
struct MovTok
{
    const MovTok* self;
    int           v;
    MovTok()
        : self(this)
        , v(0)
    {
        Fault::tick();
        ++Fault::live();
    }
    MovTok(int x)
        : self(this)
        , v(x)
    {
        Fault::tick();
        ++Fault::live();
    }
    MovTok(const MovTok&)            = delete;
    MovTok& operator=(const MovTok&) = delete;
    MovTok(MovTok&& o) noexcept
        : self(this)
        , v(o.get())
    {
        o.v = MOVED;
        ++Fault::live();
    }
    MovTok& operator=(MovTok&& o) noexcept
    {
        get();
        v   = o.get();
        o.v = MOVED;
        return *this;
    }
    ~MovTok()
    {
        get();
        self = nullptr;
        --Fault::live();
    }
    int get() const
    {
        if (self != this)
        {
            std::fprintf(stderr, "value: not a constructed object\n");
            std::fflush(nullptr);
            std::_Exit(80);
        }
        return v;
    }
    bool operator==(const MovTok& o) const { return get() == o.get(); }
};

struct Odd3
{
    unsigned char b[3];
    Odd3()
        : b{0, 0, 0}
    {
    }
    Odd3(int x)
        : b{static_cast<unsigned char>(x), static_cast<unsigned char>(x >> 8), 7}
    {
    }
    bool operator==(const Odd3& o) const { return std::memcmp(b, o.b, 2) == 0; }
};

inline int val(int x) { return x; }
inline int val(bool x) { return x ? 1 : 0; }
inline int val(const Odd3& x) { return x.b[0] | (x.b[1] << 8); }
inline int val(const MovTok& x) { return x.get(); }
template <bool T, int P, bool C>
int val(const Tok<T, P, C>& x)
{
    return x.get();
}
}  // namespace vh
#endif
