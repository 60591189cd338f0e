// Drives the single-buffer memory resources.
#include "logres.hpp"

#include "cetl/pf17/array_memory_resource.hpp"
#include "cetl/pf17/buffer_memory_resource.hpp"

#include <memory>

using namespace vh;
using cetl::pf17::pmr::memory_resource;

// an upstream type that knows nothing about re-allocation
struct PlainUp
{
    Ledger led;
    void*  allocate(std::size_t n, std::size_t al) { return led.allocate(n, al); }
    void   deallocate(void* p, std::size_t n, std::size_t al) { led.deallocate(p, n, al); }
};

// ptrdiff-max is written as 1000000 in scripts and events
static std::size_t wide(long long v)
{
    const std::size_t m = static_cast<std::size_t>(PTRDIFF_MAX);
    if (v > 1000000) return SIZE_MAX;
    if (v > 900000) return m - static_cast<std::size_t>(1000000 - v);
    return static_cast<std::size_t>(v);
}
static long long narrow(std::size_t v)
{
    const std::size_t m = static_cast<std::size_t>(PTRDIFF_MAX);
    if (v > m) return 2000000;
    if (v > m - 100000) return 1000000 - static_cast<long long>(m - v);
    return v > 900000 ? 3000000 : static_cast<long long>(v);
}

// sizes next to the largest one there is are written as 2000000 - distance
static std::size_t request(long long v)
{
    return v > 1500000 ? SIZE_MAX - static_cast<std::size_t>(2000000 - v) : static_cast<std::size_t>(v);
}

static bool by_default(std::size_t n, std::size_t al) { return al == alignof(std::max_align_t) && n % 2 == 1; }

struct Dut
{
    virtual ~Dut()                                                             = default;
    virtual void*       alloc(std::size_t, std::size_t)                        = 0;
    virtual void        dealloc(void*, std::size_t, std::size_t)               = 0;
    virtual void*       realloc_(void*, std::size_t, std::size_t, std::size_t) = 0;
    virtual std::size_t max() const                                            = 0;
    virtual std::size_t size() const                                           = 0;
    virtual void*       data()                                                 = 0;
    virtual Ledger&     led()                                                  = 0;
    virtual std::string equals() { return "[3,0,0,0]"; }
};

template <typename Res>
struct PmrDut : Dut
{
    LogRes               up;
    std::unique_ptr<Res> res;
    // odd sizes leave the alignment to the default argument where that is the one wanted
    void* alloc(std::size_t n, std::size_t al) override
    {
        return by_default(n, al) ? base().allocate(n) : base().allocate(n, al);
    }
    void dealloc(void* p, std::size_t n, std::size_t al) override
    {
        by_default(n, al) ? base().deallocate(p, n) : base().deallocate(p, n, al);
    }
    void* realloc_(void* p, std::size_t o, std::size_t n, std::size_t al) override
    {
        return by_default(n, al) ? base().reallocate(p, o, n) : base().reallocate(p, o, n, al);
    }
    std::size_t      max() const override { return static_cast<const memory_resource&>(*res).max_size(); }
    std::size_t      size() const override { return res->size(); }
    void*            data() override { return res->data(); }
    Ledger&          led() override { return up.led; }
    memory_resource& base() { return *res; }
    std::string      equals() override
    {
        LogRes other;
        const auto  twin = twin_of(res.get());
        std::string o{"["};
        for (memory_resource* r : {&base(), static_cast<memory_resource*>(&up), static_cast<memory_resource*>(&other),
                                   static_cast<memory_resource*>(twin.get())})
        {
            if (o.size() > 1) o += ',';
            o += std::to_string(int{base().is_equal(*r)} + int{base() == *r} + int{!(base() != *r)});
        }
        return o + "]";
    }
    std::unique_ptr<Res> twin_of(cetl::pf17::pmr::UnsynchronizedBufferMemoryResource* r)
    {
        return std::make_unique<Res>(r->data(), r->size(), &up, std::size_t{0});
    }
    template <std::size_t N>
    std::unique_ptr<Res> twin_of(cetl::pf17::pmr::UnsynchronizedArrayMemoryResource<N>*)
    {
        return std::make_unique<Res>();
    }
};

struct DlgDut : Dut
{
    using D = cetl::pmr::UnsynchronizedBufferMemoryResourceDelegate<PlainUp>;
    PlainUp            up;
    std::unique_ptr<D> res;
    void* alloc(std::size_t n, std::size_t al) override
    {
        return by_default(n, al) ? res->allocate(n) : res->allocate(n, al);
    }
    void dealloc(void* p, std::size_t n, std::size_t al) override
    {
        by_default(n, al) ? res->deallocate(p, n) : res->deallocate(p, n, al);
    }
    void* realloc_(void* p, std::size_t o, std::size_t n, std::size_t al) override
    {
        return by_default(n, al) ? res->reallocate(p, o, n) : res->reallocate(p, o, n, al);
    }
    std::size_t max() const override { return res->max_size(); }
    std::size_t size() const override { return res->size(); }
    void*       data() override { return res->data(); }
    Ledger&     led() override { return up.led; }
};

struct Blk
{
    unsigned char* p;
    std::size_t    sz, al;
    bool           in_buf;
};

static unsigned char pat(int id, std::size_t k) { return static_cast<unsigned char>(id * 37 + k * 11 + 5); }

int main(int argc, char** argv)
{
    return drive(argc, argv, [](const Op& hdr, const std::vector<Op>& ops) {
        // header: kind size base upmax uprealloc nullup
        const std::string   kind   = hdr.w.at(0);
        const std::size_t   size   = static_cast<std::size_t>(hdr.at(1));
        const std::size_t   base   = static_cast<std::size_t>(hdr.at(2));
        const std::size_t   upmax  = wide(hdr.at(3));
        const bool          re     = hdr.at(4) != 0;
        const bool          nullup = hdr.at(5) != 0;
        void*               area   = nullptr;
        std::unique_ptr<Dut> d;
        if (posix_memalign(&area, 4096, 4096 + base + size + 1) != 0) bad_script("no memory");
        unsigned char* guard = static_cast<unsigned char*>(area);
        std::memset(guard, 0xAB, 4096 + base + size + 1);
        void* const buf = size == 0 ? nullptr : guard + base;
        if (kind == "buf")
        {
            auto x = std::make_unique<PmrDut<cetl::pf17::pmr::UnsynchronizedBufferMemoryResource>>();
            x->res = std::make_unique<cetl::pf17::pmr::UnsynchronizedBufferMemoryResource>(buf, size, &x->up, upmax);
            d      = std::move(x);
        }
        else if (kind == "buf0")
        {
            auto x = std::make_unique<PmrDut<cetl::pf17::pmr::UnsynchronizedBufferMemoryResource>>();
            x->res = std::make_unique<cetl::pf17::pmr::UnsynchronizedBufferMemoryResource>(buf, size);
            d      = std::move(x);
        }
        else if (kind == "bufmv")
        {
            auto x = std::make_unique<PmrDut<cetl::pf17::pmr::UnsynchronizedBufferMemoryResource>>();
            cetl::pf17::pmr::UnsynchronizedBufferMemoryResource tmp(buf, size, &x->up, upmax);
            x->res = std::make_unique<cetl::pf17::pmr::UnsynchronizedBufferMemoryResource>(std::move(tmp));
            d      = std::move(x);
        }
        else if (kind == "arr")
        {
            auto x = std::make_unique<PmrDut<cetl::pf17::pmr::UnsynchronizedArrayMemoryResource<40>>>();
            x->res = std::make_unique<cetl::pf17::pmr::UnsynchronizedArrayMemoryResource<40>>(&x->up, upmax);
            d      = std::move(x);
        }
        else if (kind == "arr0")
        {
            auto x = std::make_unique<PmrDut<cetl::pf17::pmr::UnsynchronizedArrayMemoryResource<40>>>();
            x->res = std::make_unique<cetl::pf17::pmr::UnsynchronizedArrayMemoryResource<40>>();
            d      = std::move(x);
        }
        else if (kind == "dlg")
        {
            auto x = std::make_unique<DlgDut>();
            x->res = std::make_unique<DlgDut::D>(buf, size, &x->up, upmax);
            d      = std::move(x);
        }
        else
        {
            bad_script("kind " + kind);
        }
        d->led().can_realloc     = re ? Ledger::Moving : Ledger::NoRealloc;
        d->led().null_on_failure = nullup;
        unsigned char* const    data = static_cast<unsigned char*>(d->data());
        std::map<int, Blk>      blk;
        // the base the real buffer has, for the spec
        emit(J{}.str("op", "cfg").num("base", static_cast<long long>(reinterpret_cast<std::uintptr_t>(data) % 4096)).raw("eqs", d->equals()));

        auto damage = [&] {
            int bad = 0;
            for (auto& kv : blk)
            {
                for (std::size_t k = 0; k < kv.second.sz; ++k)
                {
                    if (kv.second.p[k] != pat(kv.first, k))
                    {
                        ++bad;
                        break;
                    }
                }
            }
            if (kind != "arr" && kind != "arr0")
            {
                for (std::size_t k = 0; k < base; ++k) bad += guard[k] != 0xAB;
                for (std::size_t k = 0; k < 4096; ++k) bad += guard[base + size + k] != 0xAB;
            }
            return bad;
        };
        auto place = [&](J& j, int id, unsigned char* p, std::size_t sz, std::size_t al, std::size_t keep) {
            const bool in_buf = data != nullptr && p >= data && p <= data + d->size() && d->led().live.count(p) == 0;
            j.str("w", in_buf ? "buf" : d->led().live.count(p) ? "up" : "lost");
            j.num("off", in_buf ? static_cast<long long>(p - data) : -1);
            j.num("am", static_cast<long long>(reinterpret_cast<std::uintptr_t>(p) % 4096));
            int bad = 0;
            for (std::size_t k = 0; k < keep; ++k) bad += p[k] != pat(id, k);
            if (sz > 1000000 || (in_buf && p + sz > data + d->size()))
            {
                bad += 1000;  // outside of the buffer: do not touch
            }
            else
            {
                for (std::size_t k = 0; k < sz; ++k) p[k] = pat(id, k);
            }
            blk[id] = Blk{p, bad < 1000 ? sz : 0, al, in_buf};
            return bad;
        };

        for (const auto& o : ops)
        {
            Ledger& l = d->led();
            l.calls.clear();
            l.failed = false;
            J j;
            j.str("op", o.name);
            if (o.name == "alloc" || o.name == "rnull")
            {
                const int         id = static_cast<int>(o.at(0));
                const std::size_t sz = request(o.at(1)), al = static_cast<std::size_t>(o.at(2));
                const bool        f = o.at(3) != 0;
                if (blk.count(id)) continue;
                l.fail_in     = f ? 1 : 0;
                std::string r = "ok";
                void*       p = nullptr;
#if defined(__cpp_exceptions)
                try
                {
#endif
                    p = o.name == "alloc" ? d->alloc(sz, al) : d->realloc_(nullptr, 0, sz, al);
                    if (p == nullptr) r = "null";
#if defined(__cpp_exceptions)
                } catch (const std::bad_alloc&)
                {
                    r = "bad_alloc";
                } catch (...)
                {
                    r = "other";
                }
#endif
                l.fail_in = 0;
                j.num("id", id).num("sz", o.at(1)).num("al", static_cast<long long>(al));
                j.boolean("f", f).str("r", r);
                int bad = 0;
                if (r == "ok")
                    bad = place(j, id, static_cast<unsigned char*>(p), sz, al, 0);
                else
                    j.str("w", "none").num("off", -1).num("am", 0);
                j.num("dmg", bad + damage());
            }
            else if (o.name == "realloc")
            {
                const int         id = static_cast<int>(o.at(0));
                const std::size_t sz = request(o.at(1));
                const bool        f  = o.at(2) != 0;
                if (!blk.count(id)) continue;
                const Blk b       = blk[id];
                l.fail_in         = f ? 1 : 0;
                std::string r     = "ok";
                void*       p     = nullptr;
#if defined(__cpp_exceptions)
                try
                {
#endif
                    p = d->realloc_(b.p, b.sz, sz, b.al);
                    if (p == nullptr) r = "null";
#if defined(__cpp_exceptions)
                } catch (const std::bad_alloc&)
                {
                    r = "bad_alloc";
                } catch (...)
                {
                    r = "other";
                }
#endif
                l.fail_in = 0;
                j.num("id", id).num("sz", o.at(1)).boolean("f", f).str("r", r);
                int bad = 0;
                if (r == "ok")
                    bad = place(j, id, static_cast<unsigned char*>(p), sz, b.al, std::min(sz, b.sz));
                else
                    j.str("w", "none").num("off", -1).num("am", 0);
                j.num("dmg", bad + damage());
            }
            else if (o.name == "dealloc")
            {
                const int id = static_cast<int>(o.at(0));
                if (!blk.count(id)) continue;
                const Blk b = blk[id];
                blk.erase(id);
                d->dealloc(b.p, b.sz, b.al);
                j.num("id", id).str("r", "ok").num("dmg", damage());
            }
            else if (o.name == "max")
            {
                j.num("v", narrow(d->max())).num("size", static_cast<long long>(d->size())).num("dmg", damage());
            }
            else
            {
                bad_script(o.name);
            }
            j.raw("up", calls_json(l.calls));
            emit(j);
        }
        emit(J{}.str("op", "end").num("outstanding", static_cast<long long>(d->led().live.size())).num("dmg", damage()));
        for (auto& kv : d->led().live) std::free(kv.first);
        d->led().live.clear();
        d.reset();
        std::free(area);
    });
}
