// Runs scripts of casts on an object of a generated class hierarchy.
#include "common.hpp"

#include "cetl/rtti.hpp"

#include <memory>

namespace vh
{
template <typename... Cs>
struct Hier
{
    static constexpr std::size_t N = sizeof...(Cs);
};

struct Result
{
    const void* p;
    bool        yes;
};

template <typename C, typename Q>
Result cast_from(void* cur, long long form)
{
    C* const       p = static_cast<C*>(cur);
    const C* const k = p;
    switch (form)
    {
    case 0: return {cetl::rtti_cast<Q*>(p), false};
    case 1: return {cetl::rtti_cast<Q*>(k), false};
    case 2: return {p == nullptr ? nullptr : static_cast<Q*>(p->_cast_(cetl::type_id_value<Q>)), false};
    case 3: return {k == nullptr ? nullptr : static_cast<const Q*>(k->_cast_(cetl::type_id_value<Q>)), false};
    case 4: return {cetl::rtti_cast<Q*>(static_cast<cetl::rtti*>(p)), false};
    case 5: return {cetl::rtti_cast<const Q*>(static_cast<const cetl::rtti*>(k)), false};
    case 6: return {nullptr, cetl::is_instance_of<Q>(*p)};
    default: return {nullptr, cetl::is_instance_of(*k, cetl::type_id_value<Q>)};
    }
}
template <typename Top, typename C>
void* address_of(Top* t, std::true_type)
{
    return static_cast<C*>(t);
}
template <typename Top, typename C>
void* address_of(Top*, std::false_type)
{
    return nullptr;
}
template <typename C, typename B>
void* up_from(void* cur, std::true_type)
{
    return static_cast<B*>(static_cast<C*>(cur));
}
template <typename C, typename B>
void* up_from(void*, std::false_type)
{
    return nullptr;
}

// asks with an identity that need not be any class's
template <typename C>
std::vector<bool> asks(void* cur, const cetl::type_id& id)
{
    C* const       p = static_cast<C*>(cur);
    const C* const k = p;
    std::vector<bool> r{cetl::is_instance_of(*p, id), cetl::is_instance_of(*k, id), p->_cast_(id) != nullptr, k->_cast_(id) != nullptr,
                        static_cast<const cetl::rtti*>(k)->_cast_(id) != nullptr};
    if (id == cetl::type_id{}) r.push_back(cetl::is_instance_of<void>(*k));
    return r;
}
using AskFn  = std::vector<bool> (*)(void*, const cetl::type_id&);
using CastFn = Result (*)(void*, long long);
using UpFn   = void* (*) (void*);
template <typename C, typename... Cs>
std::vector<CastFn> cast_row()
{
    return {&cast_from<C, Cs>...};
}
template <typename C, typename B>
void* up_one(void* p)
{
    return up_from<C, B>(p, std::is_base_of<B, C>{});
}
template <typename C, typename... Cs>
std::vector<UpFn> up_row()
{
    return {&up_one<C, Cs>...};
}
template <typename C>
cetl::type_id id_of()
{
    static_assert(cetl::has_type_id<C> && cetl::is_rtti_convertible<C>, "declared");
    const cetl::type_id a = cetl::type_id_value<C>, b = cetl::type_id_getter<C>(), c = C::_get_type_id_(),
                        d = cetl::type_id_value<C>;
    return (a == b && b == c && c == d) ? a : cetl::type_id{};
}

template <typename Top, typename... Cs>
void run_hier(const std::vector<Op>& ops)
{
    std::unique_ptr<Top>             obj{new Top()};
    const std::vector<void*>         addr{address_of<Top, Cs>(obj.get(), std::is_base_of<Cs, Top>{})...};
    std::vector<std::vector<CastFn>> casts{cast_row<Cs, Cs...>()...};
    std::vector<std::vector<UpFn>>   ups{up_row<Cs, Cs...>()...};
    const std::vector<AskFn>         any{&asks<Cs>...};
    const std::vector<cetl::type_id> ids{id_of<Cs>()...};
    void*                            cur = nullptr;
    std::size_t                      cls = 1;  // static type of the pointer, also when it is null
    for (const auto& o : ops)
    {
        const std::size_t c = static_cast<std::size_t>(o.at(0));
        J                 j;
        j.str("op", o.name).num("c", static_cast<long long>(c));
        if (o.name == "start")
        {
            cur = addr[c - 1];
            cls = c;
            j.boolean("ok", cur != nullptr);
        }
        else if (o.name == "up")
        {
            cur = ups[cls - 1][c - 1](cur);
            cls = c;
            j.boolean("ok", cur == addr[c - 1]);
        }
        else if (o.name == "cast")
        {
            const Result     r = casts[cls - 1][c - 1](cur, o.at(1));
            std::vector<int> at;
            for (std::size_t k = 0; k < addr.size(); ++k)
            {
                if (addr[k] != nullptr && addr[k] == r.p) at.push_back(static_cast<int>(k + 1));
            }
            j.boolean("found", r.p != nullptr).list("at", at);
            cur = const_cast<void*>(r.p);
            cls = c;
        }
        else if (o.name == "ask")
        {
            if (cur == nullptr) continue;
            j.boolean("yes", casts[cls - 1][c - 1](cur, 6 + o.at(1)).yes);
        }
        else if (o.name == "any")  // bytes
        {
            if (cur == nullptr) continue;
            cetl::type_id    id{};
            std::vector<int> yes;
            for (std::size_t k = 0; k < id.size(); ++k) id[k] = static_cast<std::uint8_t>(o.at(k));
            for (const bool y : any[cls - 1](cur, id)) yes.push_back(y);
            j.list("bytes", std::vector<int>(id.begin(), id.end())).list("yes", yes);
        }
        else if (o.name == "drop") cur = nullptr;
        else if (o.name == "id")
        {
            std::vector<int> b(ids[c - 1].begin(), ids[c - 1].end());
            j.list("bytes", b);
        }
        else if (o.name == "order")
        {
            const auto &a = ids[c - 1], &b = ids[static_cast<std::size_t>(o.at(1) - 1)];
            const bool  agree = (a <= b) == !(b < a) && (a >= b) == !(a < b) && (a > b) == (b < a) && (a != b) == !(a == b);
            j.num("d", o.at(1)).boolean("lt", a < b).boolean("eq", (a == b) == agree).boolean("gt", b < a);
        }
        else bad_script("op " + o.name);
        emit(j);
    }
}

using Runner = void (*)(const std::vector<Op>&);
inline std::map<long long, Runner>& registry()
{
    static std::map<long long, Runner> m;
    return m;
}
}  // namespace vh

int main(int argc, char** argv)
{
    return vh::drive(argc, argv, [](const vh::Op& hdr, const std::vector<vh::Op>& ops) { vh::registry().at(hdr.at(0))(ops); });
}
