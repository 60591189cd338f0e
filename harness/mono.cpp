// Monotonic buffer resources: executes scripts, records blocks and upstream calls.
// Header: kind buf base tight   kind 0 buffer+upstream, 1 size+upstream, 2 upstream only, 3 buffer+default resource,
//         4 size+default, 5 default only, 6 buffer without upstream
#include "logres.hpp"

#include "cetl/pf17/sys/memory_resource.hpp"

#include <memory>

namespace
{
using vh::J;
using vh::Op;
constexpr std::size_t Wrap = 4096, Limit = std::size_t{1} << 20;
constexpr long long   Huge = 1000000000;

struct Chunk
{
    int         id;
    char*       p;
    char*       raw;
    std::size_t n, al;
};
struct Block
{
    char*         p;
    std::size_t   n, al;
    unsigned char v;
};
std::vector<std::string> g_ups;
long                     g_fail  = 0;
int                      g_calls = 0;
bool                     g_tight = false;

long long clip(std::size_t n) { return n >= static_cast<std::size_t>(Huge) ? Huge : static_cast<long long>(n); }
void      note(const char* k, int id, std::size_t n, std::size_t al, std::size_t base)
{
    J j;
    j.str("k", k).num("id", id).num("n", clip(n)).num("al", static_cast<long long>(al)).num("base", static_cast<long long>(base));
    g_ups.push_back(j.done());
}

class Up : public cetl::pf17::pmr::memory_resource
{
public:
    std::vector<Chunk> live;
    int                next{0};
    std::size_t        max{SIZE_MAX};

private:
    void* do_allocate(std::size_t n, std::size_t al) override
    {
        bool no = n > Limit || n > max || ++g_calls > 40;
        if (g_fail > 0 && --g_fail == 0) no = true;
        if (no)
        {
            note("f", 0, n, al, 0);
#if defined(__cpp_exceptions)
            throw std::bad_alloc();
#else
            return nullptr;
#endif
        }
        // barely aligned as asked, the end of the block is the end of the allocation
        const std::size_t off = g_tight ? al : 0;
        void*             p   = nullptr;
        if (posix_memalign(&p, Wrap, n + off) != 0) vh::die("memory");
        std::memset(p, 0xCD, n + off);
        live.push_back({++next, static_cast<char*>(p) + off, static_cast<char*>(p), n, al});
        note("a", next, n, al, off);
        return live.back().p;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t al) override
    {
        for (std::size_t i = 0; i < live.size(); ++i)
        {
            if (live[i].p == p)
            {
                note("d", live[i].id, n, al, reinterpret_cast<std::uintptr_t>(p) % Wrap);
                std::free(live[i].raw);
                live.erase(live.begin() + static_cast<long>(i));
                return;
            }
        }
        vh::die("upstream got back a chunk it does not know");
    }
    bool        do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
    std::size_t do_max_size() const noexcept override { return max; }
};

std::string ups_json()
{
    std::string o{"["};
    for (const auto& x : g_ups)
    {
        if (o.size() > 1) o += ',';
        o += x;
    }
    return o + "]";
}

// odd sizes leave the alignment to the default argument where that is the one wanted
bool by_default(std::size_t n, std::size_t al) { return al == alignof(std::max_align_t) && n % 2 == 1; }

std::size_t size_code(long long n)
{
    if (n < 900000000) return static_cast<std::size_t>(n);
    const std::size_t m = SIZE_MAX;
    switch (n % 10)
    {
    case 0: return m;
    case 1: return m - 7;
    case 2: return m - 48;
    case 3: return m / 3 * 2;
    case 4: return m / 3 * 2 + 2;
    case 5: return m / 2;
    case 6: return m / 2 + 1;
    case 7: return m - 15;
    case 8: return m / 3 * 2 - 20;
    default: return m - 100;
    }
}

void history(const Op& hdr, const std::vector<Op>& ops)
{
    namespace pmr = cetl::pf17::pmr;
    const long long   kind = hdr.at(0);
    const bool        has  = kind == 0 || kind == 3 || kind == 6;
    const std::size_t buf  = static_cast<std::size_t>(hdr.at(1)), base = static_cast<std::size_t>(hdr.at(2));
    g_tight                = hdr.at(3) != 0;
    Up    up;
    void* raw = nullptr;
    if (hdr.a.size() > 4 && hdr.at(4) > 0) up.max = static_cast<std::size_t>(hdr.at(4));
    if (posix_memalign(&raw, Wrap, base + buf + 1) != 0) vh::die("memory");
    char* const buffer = static_cast<char*>(raw) + base;
    VH_POISON(buffer + buf, 1);
    (void) pmr::set_default_resource(&up);
    std::vector<Block> blocks;
    std::unique_ptr<pmr::deviant::basic_monotonic_buffer_resource> r;
    const auto make = [&] {
        switch (kind)
        {
        case 0: r.reset(new pmr::deviant::basic_monotonic_buffer_resource(buffer, buf, &up)); break;
        case 1: r.reset(new pmr::monotonic_buffer_resource(buf, &up)); break;
        case 2: r.reset(new pmr::monotonic_buffer_resource(&up)); break;
        case 3: r.reset(new pmr::monotonic_buffer_resource(buffer, buf)); break;
        case 4: r.reset(new pmr::monotonic_buffer_resource(buf)); break;
        case 5: r.reset(new pmr::monotonic_buffer_resource()); break;
        default: r.reset(new pmr::deviant::basic_monotonic_buffer_resource(buffer, buf)); break;
        }
        if (kind != 6 && r->upstream_resource() != &up) vh::die("another upstream");
    };
    make();
    J c;
    // equal to itself, not to its upstream or its twin
    std::string eqs{"["};
    {
        pmr::monotonic_buffer_resource twin(buffer, buf, &up);
        for (pmr::memory_resource* x : {static_cast<pmr::memory_resource*>(r.get()), static_cast<pmr::memory_resource*>(&up),
                                        static_cast<pmr::memory_resource*>(&twin)})
        {
            if (eqs.size() > 1) eqs += ',';
            const pmr::memory_resource& me = *r;
            eqs += std::to_string(int{me.is_equal(*x)} + int{me == *x} + int{!(me != *x)});
        }
    }
    c.raw("eqs", eqs + "]");
    c.num("room", static_cast<long long>(buf)).num("upmax", clip(r->upstream_resource()->max_size()));
    c.str("op", "cfg").num("buf", has ? static_cast<long long>(buf) : 0).num("base", static_cast<long long>(base % Wrap)).num("huge", Huge);
    vh::emit(c);
    const auto intact = [&] {
        for (const auto& b : blocks)
        {
            for (std::size_t i = 0; i < b.n; ++i)
            {
                if (static_cast<unsigned char>(b.p[i]) != b.v) return false;
            }
        }
        return true;
    };
    for (const auto& o : ops)
    {
        g_ups.clear();
        g_calls = 0;
        g_fail  = o.w.size() > 1 && o.w.at(0) == "a" ? o.at(1) : 0;
        J j;
        if (o.name == "alloc")
        {
            const std::size_t n = size_code(o.at(2)), al = static_cast<std::size_t>(o.at(3));
            void*             p = nullptr;
#if defined(__cpp_exceptions)
            try
            {
                p = by_default(n, al) ? r->allocate(n) : r->allocate(n, al);
                if (p == nullptr) vh::die("null instead of an exception");
            } catch (const std::bad_alloc&)
            {
            }
#else
            p = by_default(n, al) ? r->allocate(n) : r->allocate(n, al);
#endif
            g_fail = 0;
            if (p == nullptr && kind == 6) note("f", 0, n, al, 0);
            int        at = 0, ch = 0;
            const bool ok = p != nullptr;
            char*      q  = static_cast<char*>(p);
            if (ok)
            {
                ch = -1;
                if (has && q >= buffer && q <= buffer + buf)
                {
                    ch = 0;
                    at = static_cast<int>(q - buffer);
                }
                for (const auto& x : up.live)
                {
                    if (q >= x.p && q <= x.p + x.n)
                    {
                        ch = x.id;
                        at = static_cast<int>(q - x.p);
                    }
                }
            }
            j.str("op", "alloc").num("n", clip(n)).num("al", o.at(3)).str("r", ok ? "ok" : "fail").num("c", ch).num("at", at);
            j.raw("ups", ups_json());
            if (ok && n < static_cast<std::size_t>(Huge))
            {
                const auto v = static_cast<unsigned char>(1 + blocks.size() % 250);
                std::memset(q, v, n);
                blocks.push_back({q, n, al, v});
            }
            j.boolean("intact", intact());
        }
        else if (o.name == "dealloc")
        {
            const auto k = static_cast<std::size_t>(o.at(2));
            if (k < 1 || k > blocks.size()) continue;
            const auto& b = blocks[k - 1];
            by_default(b.n, b.al) ? r->deallocate(b.p, b.n) : r->deallocate(b.p, b.n, b.al);
            j.str("op", "dealloc").num("b", o.at(2)).raw("ups", ups_json()).boolean("intact", intact());
        }
        else if (o.name == "release" || o.name == "renew")
        {
            if (o.name == "release") r->release();
            else
            {
                r.reset();
                make();
            }
            blocks.clear();
            j.str("op", "release").raw("ups", ups_json());
        }
        else if (o.name == "max")
        {
            const pmr::memory_resource& me = *r;
            j.str("op", "max").num("v", clip(me.max_size())).raw("ups", ups_json()).boolean("intact", intact());
        }
        else vh::bad_script(o.name);
        vh::emit(j);
    }
    g_ups.clear();
    r.reset();
    J j;
    j.str("op", "release").raw("ups", ups_json());
    vh::emit(j);
    if (!up.live.empty()) vh::die("a chunk was never returned");
    (void) pmr::set_default_resource(nullptr);
    VH_UNPOISON(buffer + buf, 1);
    std::free(raw);
}
}  // namespace

int main(int argc, char** argv) { return vh::drive(argc, argv, history); }
