// Instrumented memory resource: keeps a ledger of live blocks, records calls, refuses on demand.
#ifndef VERIF_LOGRES_HPP
#define VERIF_LOGRES_HPP
#include "common.hpp"

#include "cetl/pf17/memory_resource.hpp"

#if defined(__SANITIZE_ADDRESS__)
#    include <sanitizer/asan_interface.h>
#    define VH_POISON(p, n) __asan_poison_memory_region(p, n)
#    define VH_UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
#    define VH_POISON(p, n) ((void) (p), (void) (n))
#    define VH_UNPOISON(p, n) ((void) (p), (void) (n))
#endif

namespace vh
{
struct Call
{
    char        kind;  // a, r, d
    std::size_t size, align;
    bool        ok;
};

inline std::string calls_json(const std::vector<Call>& v)
{
    std::string o{"["};
    for (const auto& c : v)
    {
        if (o.size() > 1) o += ',';
        o += std::string("[\"") + c.kind + "\"," + std::to_string(c.size) + "," + std::to_string(c.align) + "," +
             (c.ok ? "true" : "false") + "]";
    }
    return o + "]";
}

[[noreturn]] inline void die(const char* why)
{
    std::fprintf(stderr, "ledger: %s\n", why);
    std::fflush(nullptr);
    std::_Exit(79);
}

struct Ledger
{
    struct B
    {
        std::size_t size, align;
        std::size_t born{0};
    };
    std::map<void*, B> live;
    std::vector<Call>  calls;
    bool               record{true};
    enum : int
    {
        NoRealloc = 0,
        Moving    = 1,  // always another address, content moved as bytes
        InPlace   = 2   // only within the slack behind the block
    };
    static constexpr std::size_t Slack = 128;
    int                can_realloc{NoRealloc};
    bool               null_on_failure{false};
    long               fail_in{0};  // 1: the next request is refused
    bool               failed{false};

    static void* raw(std::size_t n, std::size_t al)
    {
        void* p = nullptr;
        if (al < sizeof(void*)) al = sizeof(void*);
        if (posix_memalign(&p, al, n ? n : 1) != 0) return nullptr;
        std::memset(p, 0xCD, n);
        return p;
    }
    bool refuse()
    {
        if (fail_in > 0 && --fail_in == 0)
        {
            failed = true;
            return true;
        }
        return false;
    }
    void* allocate(std::size_t n, std::size_t al)
    {
        const bool no = refuse() || n > (std::size_t{1} << 30U);
        if (record) calls.push_back({'a', n, al, !no});
        if (no)
        {
#if defined(__cpp_exceptions)
            if (!null_on_failure) throw std::bad_alloc();
#endif
            return nullptr;
        }
        void* p = slack_block(n, al);
        live[p] = {n, al, n};
        return p;
    }
    void* slack_block(std::size_t n, std::size_t al)
    {
        if (can_realloc != InPlace) return raw(n, al);
        void* p = raw(n + Slack, al);
        VH_POISON(static_cast<char*>(p) + n, Slack);
        return p;
    }
    void deallocate(void* p, std::size_t n, std::size_t al)
    {
        if (p == nullptr) return;
        auto it = live.find(p);
        if (it == live.end()) die("returned block is not owned by this resource");
        if (it->second.size != n) die("block returned with another size");
        if (it->second.align != al) die("block returned with another alignment");
        if (record) calls.push_back({'d', n, al, true});
        live.erase(it);
        std::free(p);
    }
    void* reallocate(void* p, std::size_t o, std::size_t n, std::size_t al)
    {
        bool no = can_realloc == NoRealloc || refuse() || n > (std::size_t{1} << 30U);
        if (can_realloc == InPlace && (p == nullptr || live.find(p) == live.end() || n > live[p].born + Slack)) no = true;
        if (record) calls.push_back({'r', n, al, !no});
        if (no) return nullptr;
        if (p != nullptr)
        {
            auto it = live.find(p);
            if (it == live.end()) die("re-allocated block is not owned by this resource");
            if (it->second.size != o) die("block re-allocated with another old size");
            if (can_realloc == InPlace)
            {
                char* const c = static_cast<char*>(p);
                VH_UNPOISON(c, n);
                if (n > o) std::memset(c + o, 0xCD, n - o);
                VH_POISON(c + n, it->second.born + Slack - n);
                it->second.size = n;
                return p;
            }
        }
        void* q = raw(n, al);
        if (p != nullptr)
        {
            std::memcpy(q, p, o < n ? o : n);
            live.erase(p);
            std::free(p);
        }
        live[q] = {n, al, n};
        return q;
    }
};

class LogRes : public cetl::pf17::pmr::memory_resource
{
public:
    Ledger      led;
    std::size_t limit{SIZE_MAX};

private:
    void* do_allocate(std::size_t n, std::size_t al) override { return led.allocate(n, al); }
    void  do_deallocate(void* p, std::size_t n, std::size_t al) override { led.deallocate(p, n, al); }
    bool  do_is_equal(const cetl::pf17::pmr::memory_resource& o) const noexcept override { return this == &o; }
    std::size_t do_max_size() const noexcept override { return limit; }
    void*       do_reallocate(void* p, std::size_t o, std::size_t n, std::size_t al) override
    {
        return led.reallocate(p, o, n, al);
    }
};
}  // namespace vh
#endif
