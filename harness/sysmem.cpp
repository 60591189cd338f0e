// Uses the resources at the bottom; every block is filled and looked at after each step.
#include "common.hpp"

#include <cstddef>
#include <new>

#include "cetl/pf17/memory_resource.hpp"
#include "cetl/pf17/sys/memory_resource.hpp"
#include "cetl/pmr/o1heap_memory_resource_delegate.hpp"

#include <memory>
#include <set>

using namespace vh;
namespace pmr = cetl::pf17::pmr;

// What was taken from the system's heap by the resource (see the -Wl,--wrap flags)
static bool             armed = false;
static std::set<void*>  taken;
extern "C" {
void* __real_malloc(std::size_t);
void* __real_realloc(void*, std::size_t);
void  __real_free(void*);
void* __wrap_malloc(std::size_t n)
{
    void* p = __real_malloc(n);
    if (armed && p != nullptr) armed = false, taken.insert(p), armed = true;
    return p;
}
void* __wrap_realloc(void* q, std::size_t n)
{
    void* p = __real_realloc(q, n);
    if (armed && p != nullptr) armed = false, taken.erase(q), taken.insert(p), armed = true;
    return p;
}
void __wrap_free(void* p)
{
    if (armed) armed = false, taken.erase(p), armed = true;
    __real_free(p);
}
}

namespace
{
struct Arm
{
    Arm() { armed = true; }
    ~Arm() { armed = false; }
};
constexpr long long HUGE_N = 1000000000;
#if defined(__cpp_exceptions)
constexpr bool EXC = true;
#else
constexpr bool EXC = false;
#endif
struct Mine : pmr::memory_resource
{
    void* do_allocate(std::size_t, std::size_t) override { return nullptr; }
    void  do_deallocate(void*, std::size_t, std::size_t) override {}
    bool  do_is_equal(const pmr::memory_resource&) const noexcept override { return false; }
};
struct Block
{
    unsigned char* p{nullptr};
    std::size_t    n{0}, a{1};
    bool           live{false};
    unsigned char  fill{0};
};
using Heap = cetl::pmr::UnsynchronizedO1HeapMemoryResourceDelegate;
cetl::pmr::O1HeapAlignedStorage<1024> area;  // an element takes as much as its alignment
alignas(64) unsigned char room[4096 + 64];

class Run
{
    std::string                                              kind_;
    Block                                                    blk_[4];
    pmr::deviant::MaxAlignNewDeleteResource                  own_;
    pmr::memory_resource*                                    res_{nullptr};
    std::unique_ptr<Heap>                                    heap_;
    bool                                                     lib_{false};
    unsigned char                                            next_{1};

    void* get(std::size_t n, std::size_t a, bool plain = false)
    {
        Arm arm;
        if (plain) return heap_ ? heap_->allocate(n) : res_->allocate(n);
        return heap_ ? heap_->allocate(n, a) : res_->allocate(n, a);
    }
    void put(Block& b)
    {
        Arm arm;
        heap_ ? heap_->deallocate(b.p, b.n, b.a) : res_->deallocate(b.p, b.n, b.a);
    }
    template <typename F> const char* attempt(F&& f)
    {
#if defined(__cpp_exceptions)
        try
        {
            return f() ? "ok" : "null";
        }
        catch (const std::bad_alloc&)
        {
            return "bad";
        }
#else
        return f() ? "ok" : "null";
#endif
    }
    void look(J& j)
    {
        long long off = 0, held = 0;
        bool      clash = false, kept = true;
        for (auto& b : blk_)
        {
            if (!b.live) continue;
            const auto at = reinterpret_cast<std::uintptr_t>(b.p);
            if (at % b.a != 0) off = static_cast<long long>(at % b.a);
            for (std::size_t k = 0; k < b.n; k++) kept = kept && b.p[k] == b.fill;
            for (auto& d : blk_)
                if (&d != &b && d.live && b.n && d.n && b.p < d.p + d.n && d.p < b.p + b.n) clash = true;
        }
        held = static_cast<long long>(taken.size());
        for (auto& b : blk_) held += b.live && taken.count(b.p) == 0;  // from elsewhere
        if (heap_) held = static_cast<long long>(o1heapStub().taken.size()), kept = kept && !o1heapStub().wrong;
        j.num("off", off).boolean("clash", clash).boolean("kept", kept).num("held", held);
    }
    void fill(Block& b) { b.fill = next_++, std::memset(b.p, b.fill, b.n); }

public:
    Run(const std::string& kind, long long how) : kind_(kind)
    {
        long long size = 0;
        taken.clear();
        if (kind == "sys") lib_ = how != 0, res_ = lib_ ? pmr::new_delete_resource() : &own_;
        else if (kind == "null") res_ = pmr::null_memory_resource();
        else if (how != 0) size = 1024, heap_.reset(new Heap(area));
        else size = 4096, heap_.reset(new Heap(room, 4096));
        emit(J().str("op", "cfg").str("kind", kind).boolean("exc", EXC).num("most", kind == "heap" ? static_cast<long long>(O1HEAP_ALIGNMENT) : static_cast<long long>(alignof(std::max_align_t)))
                 .num("size", size));
    }
    ~Run()
    {
        for (auto& b : blk_)
            if (b.live) put(b);
    }
    static std::size_t bytes(long long n) { return n == HUGE_N ? static_cast<std::size_t>(-1) / 2 - 100 : static_cast<std::size_t>(n); }
    void step(const Op& q)
    {
        const auto& n = q.name;
        J           j;
        j.str("op", n);
        if (n == "alloc")  // b n a spare
        {
            Block& b = blk_[q.at(0) - 1];
            if (b.live) return;
            const std::size_t size = bytes(q.at(1)), align = static_cast<std::size_t>(q.at(2));
            bool              spare = q.at(3) != 0;
            if (heap_)
            {
                o1heapStub().spare = spare;
                if (spare && size > 0)  // does it have room
                {
                    void* p = o1heapAllocate(&o1heapStub(), size);
                    spare   = p != nullptr;
                    if (spare) o1heapFree(&o1heapStub(), p);
                }
            }
            j.num("b", q.at(0)).num("n", q.at(1)).num("a", q.at(2)).boolean("spare", spare);
            j.str("r", attempt([&] {
                void* p = get(size, align, align == alignof(std::max_align_t) && q.at(3) == 2);
                if (p != nullptr)
                {
                    b.p = static_cast<unsigned char*>(p), b.n = size < 1000000 ? size : 0, b.a = align, b.live = true;
                    fill(b);
                }
                return p != nullptr;
            }));
            look(j);
        }
        else if (n == "free")  // b
        {
            Block& b = blk_[q.at(0) - 1];
            if (!b.live) return;
            b.live = false;
            put(b);
            j.num("b", q.at(0)).str("r", "ok");
            look(j);
        }
        else if (n == "realloc")  // b n a
        {
            Block& b = blk_[q.at(0) - 1];
            if (!b.live || kind_ != "sys" || q.at(1) == 0) return;
            const std::size_t size = bytes(q.at(1)), align = static_cast<std::size_t>(q.at(2));
            j.num("b", q.at(0)).num("n", q.at(1)).num("a", q.at(2));
            bool kept = true;
            j.str("r", attempt([&] {
                void* p = nullptr;
                {
                    Arm arm;
                    p = res_->reallocate(b.p, b.n, size, align);
                }
                if (p != nullptr)
                {
                    b.p = static_cast<unsigned char*>(p), b.a = align;
                    for (std::size_t k = 0; k < b.n && k < size; k++) kept = kept && b.p[k] == b.fill;
                    b.n = size < 1000000 ? size : 0;
                    fill(b);
                    if (!kept && b.n) b.p[0]++;
                }
                return p != nullptr;
            }));
            look(j);
        }
        else if (n == "refuse")
        {
            if (kind_ != "null") return;
            char c = 0;
            j.str("r", attempt([&] { return res_->reallocate(&c, 1, 2, 1) != nullptr; }));
        }
        else if (n == "ignore")
        {
            if (kind_ != "null") return;
            char c = 0;
            res_->deallocate(&c, 1, 1);
            res_->deallocate(nullptr, 0);
            j.str("r", "ok");
        }
        else if (n == "max")
        {
            const std::size_t m = heap_ ? heap_->max_size() : res_->max_size();
            j.num("ret", m == static_cast<std::size_t>(-1) ? -1 : m < 1000000000 ? static_cast<long long>(m) : -2);
        }
        else if (n == "eq")  // other
        {
            const auto& o = q.w.at(0);
            if (heap_ || (kind_ == "sys" && !lib_)) return;
            Mine                        mine;
            const pmr::memory_resource* r = o == "self" ? res_ : o == "same" ? (kind_ == "null" ? pmr::null_memory_resource() : pmr::new_delete_resource())
                                          : o == "null" ? pmr::null_memory_resource() : o == "sys" ? pmr::new_delete_resource() : &mine;
            j.str("other", o).boolean("eq", *res_ == *r).boolean("ne", *res_ != *r);
        }
        else { bad_script(n); }
        emit(j);
    }
};
void history(const Op& hdr, const std::vector<Op>& ops)
{
    Run r(hdr.w.at(0), hdr.at(1));
    for (const auto& o : ops) r.step(o);
}
}  // namespace

int main(int argc, char** argv) { return drive(argc, argv, history); }
