// The global registers under several threads.
//   -DCOOP: every access to an atomic is a scheduling point, the script is the schedule (one process per history)
//   otherwise the threads run freely and calls are ordered by tickets
#include "common.hpp"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <functional>
#include <limits>
#include <memory>
#include <mutex>
#include <thread>
#include <tuple>
#include <sys/wait.h>
#include <unistd.h>

#if defined(COOP)
void vh_yield();
namespace std
{
template <typename T>
class vh_atomic
{
    std::atomic<T> v;

public:
    constexpr vh_atomic() noexcept : v() {}
    constexpr vh_atomic(T x) noexcept : v(x) {}
    vh_atomic(const vh_atomic&) = delete;
    T load(std::memory_order = std::memory_order_seq_cst) const noexcept { return vh_yield(), v.load(); }
    void store(T x, std::memory_order = std::memory_order_seq_cst) noexcept { vh_yield(), v.store(x); }
    T exchange(T x, std::memory_order = std::memory_order_seq_cst) noexcept { return vh_yield(), v.exchange(x); }
    bool compare_exchange_strong(T& e, T x, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) noexcept
    {
        return vh_yield(), v.compare_exchange_strong(e, x);
    }
    bool compare_exchange_weak(T& e, T x, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) noexcept
    {
        return vh_yield(), v.compare_exchange_strong(e, x);
    }
    operator T() const noexcept { return load(); }
    T operator=(T x) noexcept { return store(x), x; }
};
template <typename T>
T atomic_load(const vh_atomic<T>* a) noexcept { return a->load(); }
template <typename T>
void atomic_store(vh_atomic<T>* a, T x) noexcept { a->store(x); }
template <typename T>
T atomic_exchange(vh_atomic<T>* a, T x) noexcept { return a->exchange(x); }
}  // namespace std
#    define atomic vh_atomic
#endif
#include "cetl/pf17/sys/memory_resource.hpp"
#if defined(COOP)
#    undef atomic
#endif

namespace
{
using vh::J;
using vh::Op;
namespace pmr = cetl::pf17::pmr;

struct Res : pmr::memory_resource
{
    void* do_allocate(std::size_t, std::size_t) override { return nullptr; }
    void  do_deallocate(void*, std::size_t, std::size_t) override {}
    bool  do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
constexpr int         N = 256;
Res                   g_res[N + 1];
pmr::memory_resource* g_builtin = nullptr;

long long id_of(const pmr::memory_resource* p)
{
    if (p == nullptr) return -6;
    if (p == g_builtin) return 0;
    for (int i = 1; i <= N; ++i)
    {
        if (p == &g_res[i]) return i;
    }
    return -5;
}
pmr::memory_resource* res(long long a) { return a == 0 ? nullptr : &g_res[a]; }
const pmr::memory_resource* call(const std::string& k, long long a)
{
    if (k == "getnd") return pmr::new_delete_resource();
    if (k == "setnd") return pmr::deviant::set_new_delete_resource(res(a));
    if (k == "getdf") return pmr::get_default_resource();
    if (k == "setdf") return pmr::set_default_resource(res(a));
    vh::bad_script(k);
}
std::string inv_json(int t, const std::string& k, long long a)
{
    J j;
    return j.str("op", "inv").num("t", t).str("k", k).num("a", a).done();
}
std::string ret_json(int t, long long v)
{
    J j;
    return j.str("op", "ret").num("t", t).num("v", v).done();
}
}  // namespace

#if defined(COOP)
namespace
{
enum St
{
    Idle,
    Running,
    Paused,
    Finished,
    Quit
};
std::mutex              g_m;
std::condition_variable g_cv;
struct Thr
{
    St          st{Idle};
    bool        go{false};
    std::string k;
    long long   a{0}, v{0};
    std::thread th;
};
Thr               g_t[5];
int               g_n = 0;
thread_local int  tl_t = 0;

void worker(int t)
{
    tl_t = t;
    std::unique_lock<std::mutex> l{g_m};
    Thr&                         me = g_t[t];
    while (true)
    {
        g_cv.wait(l, [&] { return me.go || me.st == Quit; });
        if (me.st == Quit) return;
        me.go = false;
        l.unlock();
        const auto* p = call(me.k, me.a);
        l.lock();
        me.v  = id_of(p);
        me.st = Finished;
        g_cv.notify_all();
    }
}
void settle(int t)  // until t stops, or seems to be blocked by another one
{
    std::unique_lock<std::mutex> l{g_m};
    g_cv.wait_for(l, std::chrono::milliseconds(15), [&] { return g_t[t].st != Running; });
    for (int i = 1; i <= g_n; ++i)
    {
        if (g_t[i].st == Finished)
        {
            g_t[i].st = Idle;
            vh::emit(ret_json(i, g_t[i].v));
        }
    }
}
bool resume(int t)
{
    {
        std::unique_lock<std::mutex> l{g_m};
        if (g_t[t].st != Paused) return false;
        g_t[t].st = Running;  // from now on, however long it takes to wake up
        g_t[t].go = true;
    }
    g_cv.notify_all();
    settle(t);
    return true;
}
void child(const Op& hdr, const std::vector<Op>& ops)
{
    g_builtin = pmr::new_delete_resource();
    g_n       = static_cast<int>(hdr.at(0));
    J c;
    vh::emit(c.str("op", "cfg").num("threads", g_n).boolean("fresh", true).num("nd", 0).num("df", 0));
    for (int t = 1; t <= g_n; ++t) g_t[t].th = std::thread(worker, t);
    for (const auto& o : ops)
    {
        const int t = static_cast<int>(o.at(0));
        if (o.name == "inv")
        {
            {
                std::unique_lock<std::mutex> l{g_m};
                if (g_t[t].st != Idle) continue;
                g_t[t].k  = o.w.at(1);
                g_t[t].a  = o.at(2);
                vh::emit(inv_json(t, g_t[t].k, g_t[t].a));
                g_t[t].st = Running;
                g_t[t].go = true;
            }
            g_cv.notify_all();
            settle(t);
        }
        else resume(t);
    }
    for (int round = 0; round < 2000; ++round)
    {
        bool busy = false;
        for (int t = 1; t <= g_n; ++t)
        {
            (void) resume(t);
            settle(t);
            std::unique_lock<std::mutex> l{g_m};
            busy = busy || g_t[t].st != Idle;
        }
        if (!busy) break;
    }
    {
        std::unique_lock<std::mutex> l{g_m};
        for (int t = 1; t <= g_n; ++t)
        {
            if (g_t[t].st != Idle) std::_Exit(77);
            g_t[t].st = Quit;
        }
    }
    g_cv.notify_all();
    for (int t = 1; t <= g_n; ++t) g_t[t].th.join();
}
void history(const Op& hdr, const std::vector<Op>& ops)
{
    std::fflush(nullptr);
    const pid_t p = fork();
    if (p == 0)
    {
        child(hdr, ops);
        std::fflush(nullptr);
        std::_Exit(0);
    }
    int st = 0;
    if (p < 0 || waitpid(p, &st, 0) != p || st != 0)
    {
        std::fprintf(stderr, "a history ended with status %d\n", st);
        std::_Exit(78);
    }
    std::fseek(vh::out(), 0, SEEK_END);
}
}  // namespace
void vh_yield()
{
    if (tl_t == 0) return;
    std::unique_lock<std::mutex> l{g_m};
    Thr&                         me = g_t[tl_t];
    me.st                           = Paused;
    g_cv.notify_all();
    g_cv.wait(l, [&] { return me.go; });
    me.go = false;
}
#else
namespace
{
void history(const Op& hdr, const std::vector<Op>& ops)
{
    struct Ev
    {
        unsigned  n;
        int       t;
        long long v;
        const Op* o;
    };
    const int n = static_cast<int>(hdr.at(0));
    (void) pmr::deviant::set_new_delete_resource(nullptr);
    g_builtin = pmr::new_delete_resource();
    (void) pmr::set_default_resource(nullptr);
    std::vector<std::vector<const Op*>> todo(static_cast<std::size_t>(n) + 1);
    std::vector<std::vector<Ev>>        got(static_cast<std::size_t>(n) + 1);
    for (const auto& o : ops) todo[static_cast<std::size_t>(o.at(0))].push_back(&o);
    std::atomic<unsigned>    ticket{0};
    std::atomic<int>         ready{0};
    std::vector<std::thread> th;
    for (int t = 1; t <= n; ++t)
    {
        th.emplace_back([&, t] {
            auto&                                                  mine = todo[static_cast<std::size_t>(t)];
            auto&                                                  ev   = got[static_cast<std::size_t>(t)];
            std::vector<const pmr::memory_resource*>               r(mine.size());
            std::vector<unsigned>                                  a(mine.size()), b(mine.size());
            std::vector<int>                                       kind(mine.size());
            std::vector<pmr::memory_resource*>                     arg(mine.size());
            for (std::size_t i = 0; i < mine.size(); ++i)
            {
                const std::string& k = mine[i]->w.at(1);
                kind[i]              = k == "getnd" ? 0 : k == "setnd" ? 1 : k == "getdf" ? 2 : 3;
                arg[i]               = res(mine[i]->at(2));
            }
            ready.fetch_add(1);
            while (ready.load() < n) {}
            for (std::size_t i = 0; i < mine.size(); ++i)
            {
                a[i] = ticket.fetch_add(1);
                switch (kind[i])
                {
                case 0: r[i] = pmr::new_delete_resource(); break;
                case 1: r[i] = pmr::deviant::set_new_delete_resource(arg[i]); break;
                case 2: r[i] = pmr::get_default_resource(); break;
                default: r[i] = pmr::set_default_resource(arg[i]); break;
                }
                b[i] = ticket.fetch_add(1);
            }
            for (std::size_t i = 0; i < mine.size(); ++i)
            {
                ev.push_back({a[i], t, 0, mine[i]});
                ev.push_back({b[i], t, id_of(r[i]), nullptr});
            }
        });
    }
    for (auto& t : th) t.join();
    std::vector<Ev> all;
    for (const auto& v : got) all.insert(all.end(), v.begin(), v.end());
    std::sort(all.begin(), all.end(), [](const Ev& x, const Ev& y) { return x.n < y.n; });
    J c;
    vh::emit(c.str("op", "cfg").num("threads", n).boolean("fresh", false).num("nd", 0).num("df", 0));
    for (const auto& e : all) vh::emit(e.o != nullptr ? inv_json(e.t, e.o->w.at(1), e.o->at(2)) : ret_json(e.t, e.v));
}
}  // namespace
#endif

int main(int argc, char** argv) { return vh::drive(argc, argv, history); }
