// Stands in for o1heap: the same interface, blocks at multiples of O1HEAP_ALIGNMENT that are not aligned any better.
#ifndef O1HEAP_H_INCLUDED
#define O1HEAP_H_INCLUDED
#include <cstddef>
#include <cstdint>
#include <map>

#define O1HEAP_ALIGNMENT (sizeof(void*) * 4U)

struct O1HeapInstance
{
    std::uintptr_t                          base, end;
    std::map<std::uintptr_t, std::uintptr_t> taken;  // from, to
    bool                                    spare{true};
    bool                                    wrong{false};  // given back what was not taken
};
inline O1HeapInstance& o1heapStub()
{
    static O1HeapInstance h;
    return h;
}
inline O1HeapInstance* o1heapInit(void* const base, const std::size_t size)
{
    auto& h = o1heapStub();
    h       = O1HeapInstance{};
    if (base == nullptr || reinterpret_cast<std::uintptr_t>(base) % O1HEAP_ALIGNMENT != 0 || size < 256) return nullptr;
    h.base = reinterpret_cast<std::uintptr_t>(base), h.end = h.base + size;
    return &h;
}
inline void* o1heapAllocate(O1HeapInstance* const h, const std::size_t amount)
{
    if (amount == 0 || !h->spare) return nullptr;
    std::uintptr_t at = (h->base / (2 * O1HEAP_ALIGNMENT) + 1) * (2 * O1HEAP_ALIGNMENT) + O1HEAP_ALIGNMENT;
    for (const auto& t : h->taken)
    {
        if (at < t.first && t.first - at >= amount) break;
        while (at < t.second) at += 2 * O1HEAP_ALIGNMENT;
    }
    if (at > h->end || h->end - at < amount) return nullptr;
    h->taken[at] = at + amount;
    return reinterpret_cast<void*>(at);
}
inline void o1heapFree(O1HeapInstance* const h, void* const p)
{
    if (p != nullptr && h->taken.erase(reinterpret_cast<std::uintptr_t>(p)) != 1) h->wrong = true;
}
#endif
