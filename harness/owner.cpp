// Owning pointers over memory resources: executes scripts, records what reached resources and objects.
//   -DFAM=1..5 (see Owner.tla)   -DSTDPMR: std::pmr allocators
#include "common.hpp"

#include "cetl/pf17/memory_resource.hpp"
#include "cetl/pmr/interface_ptr.hpp"
#include "cetl/pmr/memory.hpp"

#include <memory>
#if defined(STDPMR)
#    include <memory_resource>
#endif

#if defined(STDPMR)
namespace pm = std::pmr;
#else
namespace pm = cetl::pf17::pmr;
#endif

namespace
{
using vh::J;
using vh::Op;
constexpr int Blocks = 12;

std::vector<std::string> g_log;
long                     g_fail_alloc = 0, g_fail_ctor = 0;
bool                     g_failed_alloc = false, g_null = false;
int                      g_last = 0;

void note(const char* w, long a, long b, long c, long d)
{
    g_log.push_back(std::string("[\"") + w + "\"," + std::to_string(a) + "," + std::to_string(b) + "," +
                    std::to_string(c) + "," + std::to_string(d) + "]");
}
[[noreturn]] void die(const char* why)
{
    std::fprintf(stderr, "ledger: %s\n", why);
    std::fflush(nullptr);
    std::_Exit(79);
}
struct Blk
{
    char*       p{nullptr};
    std::size_t n{0};
};
Blk g_blk[Blocks + 1];
int block_of(const void* p)
{
    for (int i = 1; i <= Blocks; ++i)
    {
        if (g_blk[i].p != nullptr && p >= g_blk[i].p && p < g_blk[i].p + g_blk[i].n) return i;
    }
    return 0;
}

class Res : public pm::memory_resource
{
public:
    int id{0};

private:
    void* do_allocate(std::size_t n, std::size_t al) override
    {
        if (g_fail_alloc > 0 && --g_fail_alloc == 0)
        {
            note("f", 0, id, static_cast<long>(n), static_cast<long>(al));
            g_failed_alloc = true;
#if defined(__cpp_exceptions)
            if (!g_null) throw std::bad_alloc();
#endif
            return nullptr;
        }
        int i = 1;
        while (i <= Blocks && g_blk[i].p != nullptr) ++i;
        if (i > Blocks) die("too many blocks are live");
        void* p = nullptr;
        if (posix_memalign(&p, al < sizeof(void*) ? sizeof(void*) : al, n ? n : 1) != 0) die("memory");
        std::memset(p, 0xCD, n);
        g_blk[i].p = static_cast<char*>(p);
        g_blk[i].n = n;
        g_last     = i;
        note("a", i, id, static_cast<long>(n), static_cast<long>(al));
        return p;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t al) override
    {
        const int i = block_of(p);
        if (i == 0 || g_blk[i].p != p) die("returned memory is not the start of a live block");
        note("d", i, id, static_cast<long>(n), static_cast<long>(al));
        g_blk[i].p = nullptr;
        std::free(p);
    }
    bool do_is_equal(const pm::memory_resource& o) const noexcept override { return this == &o; }
};
Res g_res[3];

struct I1
{
    virtual ~I1()             = default;
    virtual int  value1() const = 0;
};
struct I2
{
    virtual int value2() const = 0;

protected:
    ~I2() = default;
};
struct Mixin
{
    long x[3];
    virtual ~Mixin() = default;
};
struct Other
{
    long y{1};
};
struct Once  // argument that can only be moved
{
    explicit Once(int v) : p{new int(v)} {}
    std::unique_ptr<int> p;
};

template <int K>
struct Layout;
template <>
struct Layout<1> : I1, I2
{};
template <>
struct alignas(64) Layout<2> : Mixin, I2, I1
{
    char pad[70];
};
template <>
struct Layout<3> : I2, Mixin, virtual Other, I1  // a virtual base besides the interfaces
{
    char pad;
};

template <int K>
struct Obj final : Layout<K>
{
    Obj(int a, Once b, const std::string& c) : v{a + *b.p + static_cast<int>(c.size())} { born(); }
    explicit Obj(int a) : v{a} { born(); }
    ~Obj()
    {
        const int b = vt();
        note("x", b, index(b), K, 0);
        v = -99;
    }
    Obj(const Obj&) = delete;
    int value1() const override { return v; }
    int value2() const override { return v; }
    int vt() const { return block_of(this); }
    int index(int b) const { return b == 0 ? 0 : static_cast<int>((reinterpret_cast<const char*>(this) - g_blk[b].p) / static_cast<long>(sizeof(Obj))) + 1; }

private:
    void born()
    {
#if defined(__cpp_exceptions)
        if (g_fail_ctor > 0 && --g_fail_ctor == 0) throw std::runtime_error("ctor");
#endif
        const int b = block_of(this);
        note("c", b, index(b), K, 0);
    }
    int v;
};

// Constructor forms must not build an I1 or I2 copy; the value is a, split over the arguments.
template <int K>
using Alloc = pm::polymorphic_allocator<Obj<K>>;

#if FAM == 1 || FAM == 2
#    if FAM == 1
using Face = I1;
int value(const Face& f) { return f.value1(); }
#    else
using Face = I2;
int value(const Face& f) { return f.value2(); }
#    endif
using Owner = cetl::pmr::InterfacePtr<Face>;
template <int K>
Owner make_k(Res& r, int v, int form)
{
    Alloc<K> a{&r};
    if (form == 0) return cetl::pmr::InterfaceFactory::make_unique<Face>(a, v);
    return cetl::pmr::InterfaceFactory::make_unique<Face>(a, v - 5, Once{3}, std::string("xy"));
}
#elif FAM == 3 || FAM == 4
#    if !defined(KIND)
#        define KIND 1
#    endif
using Face  = Obj<KIND>;
int value(const Face& f) { return f.value1(); }
using Owner = cetl::pmr::Factory::unique_ptr_t<Alloc<KIND>>;
template <int K>
Owner make_k(Res& r, int v, int form)
{
    Alloc<KIND> a{&r};
#    if FAM == 3
    if (form == 0) return cetl::pmr::Factory::make_unique(a, v);
    return cetl::pmr::Factory::make_unique(a, v - 5, Once{3}, std::string("xy"));
#    else
    (void) form;
    Face* const p = a.allocate(K);
    if (p != nullptr)
    {
        for (int i = 0; i < K; ++i) a.construct(p + i, v);
    }
    return Owner{p, cetl::pmr::PolymorphicDeleter<Alloc<KIND>>{a, K}};
#    endif
}
#else
using Face = char;
int value(const Face& f) { return f; }
using Owner = std::unique_ptr<char, cetl::pmr::MemoryResourceDeleter<Res>>;
constexpr std::size_t Sizes[4]  = {0, 24, 7, 160};
constexpr std::size_t Aligns[4] = {0, 16, 1, 128};
template <int K>
Owner make_k(Res& r, int v, int)
{
    Owner o{static_cast<char*>(r.allocate(Sizes[K], Aligns[K])), cetl::pmr::MemoryResourceDeleter<Res>{&r, Sizes[K], Aligns[K]}};
    if (o) std::memset(o.get(), v, Sizes[K]);
    return o;
}
#endif

Owner make(int k, Res& r, int v, int form)
{
    if (k == 1) return make_k<1>(r, v, form);
    if (k == 2) return make_k<2>(r, v, form);
    return make_k<3>(r, v, form);
}

struct Slot
{
    bool on{false};
    alignas(Owner) unsigned char mem[sizeof(Owner)];
    Owner& o() { return *reinterpret_cast<Owner*>(mem); }
    void   put(Owner&& x)
    {
        new (mem) Owner(std::move(x));
        on = true;
    }
    void drop()
    {
        on = false;
        o().~Owner();
    }
};

int         g_slots = 0;
Slot        g_s[5];
Face*       g_raw = nullptr;
int         g_rk = 0, g_rm = 0;
#if FAM != 5
std::unique_ptr<Owner::deleter_type> g_rdel;
#endif
int g_kind[Blocks + 1], g_mr[Blocks + 1];
int g_dk[5], g_dm[5];  // kind and resource each owner's deleter is for, 0: none

int id_of(const Face* p)
{
    if (p == nullptr) return 0;
    return block_of(static_cast<const void*>(p));
}

std::string seen()
{
    std::string o{"["};
    for (int s = 1; s <= g_slots; ++s)
    {
        if (s > 1) o += ',';
        long id = -1, v = 0, m = 0, n = 0, al = 0;
        if (g_s[s].on)
        {
            Owner& w = g_s[s].o();
            id       = id_of(w.get());
            if (w) v = value(*w);
#if FAM == 4
            if (w)
            {
                for (int i = 0; i < g_kind[id]; ++i)
                {
                    if (value(w.get()[i]) != v) v = -1;
                }
            }
#endif
#if FAM == 5
            if (w.get_deleter().resource() != nullptr)
            {
                m  = w.get_deleter().resource()->id;
                n  = static_cast<long>(w.get_deleter().size());
                al = static_cast<long>(w.get_deleter().alignment());
            }
#endif
        }
        o += "[" + std::to_string(id) + "," + std::to_string(v) + "," + std::to_string(m) + "," + std::to_string(n) + "," +
             std::to_string(al) + "]";
    }
    return o + "]";
}
std::string log_json()
{
    std::string o{"["};
    for (const auto& x : g_log)
    {
        if (o.size() > 1) o += ',';
        o += x;
    }
    return o + "]";
}

void step(const Op& op)
{
    const char  f = op.w.at(0)[0];
    const int   s = static_cast<int>(op.at(2));
    const int   u = op.a.size() > 3 ? static_cast<int>(op.at(3)) : 0;
    Slot&       S = g_s[s];
    std::string r{"ok"};
    J           j;
    g_log.clear();
    g_fail_alloc = g_fail_ctor = 0;
    g_failed_alloc             = false;
    g_last                     = 0;
    const auto movable         = [](int x) {
        if (!g_s[x].on) return false;
        return FAM != 5 || g_dk[x] != 0;
    };
    const auto left = [](int x) {
        if (FAM == 1 || FAM == 2 || FAM == 5) g_dk[x] = g_dm[x] = 0;
    };
    if (op.name == "make" || op.name == "makeo")
    {
        if (S.on != (op.name == "makeo")) return;
        const int k = u, m = static_cast<int>(op.at(4)), v = static_cast<int>(op.at(5)), form = static_cast<int>(op.at(6));
        if (f == 'a') g_fail_alloc = op.at(1);
        if (f == 'e' && FAM <= 3) g_fail_ctor = op.at(1);
        bool made = true;
#if defined(__cpp_exceptions)
        try
        {
#endif
            if (S.on) S.o() = make(k, g_res[m], v, form);
            else S.put(make(k, g_res[m], v, form));
#if defined(__cpp_exceptions)
        } catch (const std::bad_alloc&)
        {
            r    = "alloc";
            made = false;
        } catch (const std::runtime_error&)
        {
            r    = "elem";
            made = false;
        }
#endif
        if (made)
        {
            if (!S.o())
            {
                r = g_failed_alloc ? "null" : "none";
            }
            else
            {
                g_kind[g_last] = k;
            }
            g_dk[s] = k;
            g_dm[s] = m;
        }
        g_fail_alloc = g_fail_ctor = 0;
        j.str("op", op.name).num("s", s).num("k", k).num("m", m).num("v", v).str("r", r).num("id", g_last);
    }
    else if (op.name == "new")
    {
#if FAM == 1 || FAM == 2
        if (S.on) return;
        S.put(Owner{});
        g_dk[s] = g_dm[s] = 0;
        j.str("op", op.name).num("s", s);
#else
        return;
#endif
    }
    else if (op.name == "movenew")
    {
        if (S.on || s == u || !movable(u)) return;
        S.put(std::move(g_s[u].o()));
        g_dk[s] = g_dk[u];
        g_dm[s] = g_dm[u];
        left(u);
        j.str("op", op.name).num("s", s).num("u", u);
    }
    else if (op.name == "movea")
    {
        if (!S.on || !movable(u)) return;
        Owner& from = g_s[u].o();
        S.o()       = std::move(from);
        g_dk[s]     = g_dk[u];
        g_dm[s]     = g_dm[u];
        if (s != u) left(u);
        j.str("op", op.name).num("s", s).num("u", u);
    }
    else if (op.name == "swap")
    {
        if (!movable(s) || !movable(u)) return;
        if (op.a.size() > 4 && op.at(4) == 1) std::swap(S.o(), g_s[u].o());
        else S.o().swap(g_s[u].o());
        std::swap(g_dk[s], g_dk[u]);
        std::swap(g_dm[s], g_dm[u]);
        j.str("op", op.name).num("s", s).num("u", u);
    }
    else if (op.name == "reset")
    {
        if (!S.on) return;
        if (s % 2 == 0) S.o().reset();
        else
        {
            S.o() = nullptr;
        }
        j.str("op", op.name).num("s", s);
    }
    else if (op.name == "release")
    {
        if (!S.on || !S.o() || g_raw != nullptr) return;
        g_rk = g_dk[s];
        g_rm = g_dm[s];
#if FAM != 5
        g_rdel.reset(new Owner::deleter_type(S.o().get_deleter()));
#endif
        g_raw = S.o().release();
        j.str("op", op.name).num("s", s);
    }
    else if (op.name == "put")
    {
        if (!S.on || g_raw == nullptr || g_dk[s] != g_rk || g_dm[s] != g_rm) return;
        S.o().reset(g_raw);
        g_raw = nullptr;
        j.str("op", op.name).num("s", s);
    }
    else if (op.name == "adopt")
    {
        if (S.on || g_raw == nullptr) return;
#if FAM != 5
        S.put(Owner{g_raw, *g_rdel});
#else
        S.put(Owner{g_raw, cetl::pmr::MemoryResourceDeleter<Res>{&g_res[g_rm], Sizes[g_rk], Aligns[g_rk]}});
#endif
        g_raw   = nullptr;
        g_dk[s] = g_rk;
        g_dm[s] = g_rm;
        j.str("op", op.name).num("s", s);
    }
    else if (op.name == "dest")
    {
        if (!S.on) return;
        S.drop();
        g_dk[s] = g_dm[s] = 0;
        j.str("op", op.name).num("s", s);
    }
    else vh::bad_script("op " + op.name);
    j.raw("log", log_json()).raw("seen", seen());
    vh::emit(j);
}

void history(const Op& hdr, const std::vector<Op>& ops)
{
    g_slots     = static_cast<int>(hdr.at(0));
    g_null      = hdr.at(1) != 0;
    g_res[1].id = 1;
    g_res[2].id = 2;
    for (int s = 1; s < 5; ++s) g_dk[s] = g_dm[s] = 0;
#if FAM == 5
    const std::vector<std::size_t> size(Sizes + 1, Sizes + 4), align(Aligns + 1, Aligns + 4);
    const std::vector<int>         n{1, 1, 1};
#elif FAM == 4
    const std::vector<std::size_t> size(3, sizeof(Face)), align(3, alignof(Face));
    const std::vector<int>         n{1, 2, 3};
#elif FAM == 3
    const std::vector<std::size_t> size(3, sizeof(Face)), align(3, alignof(Face));
    const std::vector<int>         n{1, 1, 1};
#else
    const std::vector<std::size_t> size{sizeof(Obj<1>), sizeof(Obj<2>), sizeof(Obj<3>)};
    const std::vector<std::size_t> align{alignof(Obj<1>), alignof(Obj<2>), alignof(Obj<3>)};
    const std::vector<int>         n{1, 1, 1};
#endif
    J c;
    bool nf = g_null, th = false;
#if defined(__cpp_exceptions)
    th = FAM <= 3;
#else
    nf = true;
#endif
    c.str("op", "cfg").num("fam", FAM).boolean("nullfail", nf).boolean("throws", th).list("size", size).list("align", align);
#if FAM == 3 || FAM == 4
    const std::vector<int> cls(3, KIND);
#else
    const std::vector<int> cls{1, 2, 3};
#endif
    c.list("cls", cls).list("n", n).num("slots", g_slots).num("blocks", Blocks);
    vh::emit(c);
    for (const auto& o : ops) step(o);
    for (int s = 1; s <= g_slots; ++s)
    {
        if (g_raw != nullptr) step(vh::parse("adopt n 0 " + std::to_string(s)));
        step(vh::parse("dest n 0 " + std::to_string(s)));
    }
    if (g_raw != nullptr)
    {
        step(vh::parse("adopt n 0 1"));
        step(vh::parse("dest n 0 1"));
    }
#if FAM != 5
    g_rdel.reset();
#endif
    for (int i = 1; i <= Blocks; ++i)
    {
        if (g_blk[i].p != nullptr) die("a block was never returned");
    }
}
}  // namespace

int main(int argc, char** argv) { return vh::drive(argc, argv, history); }
