// Uses string views of several character types; letters are numbered in ascending order.
#include "common.hpp"

#include "cetl/pf17/string_view.hpp"

#include <memory>
#include <sstream>
#include <utility>

using namespace vh;

namespace
{
// a character type and what its letters are
template <typename C, typename T>
struct Kind
{
    using Char   = C;
    using Traits = T;
    static const C* letters()
    {
        static const C l[] = {static_cast<C>(0), static_cast<C>('A'), static_cast<C>('a'),
                              static_cast<C>(sizeof(C) == 1 ? 0xE9 : sizeof(C) == 2 ? 0xFFF0 : 0x1F600), static_cast<C>('*'), static_cast<C>('#')};
        return l;
    }
};
struct FoldTraits : std::char_traits<char>
{
    static char up(char c) { return c == 'a' ? 'A' : c; }
    static bool eq(char a, char b) noexcept { return up(a) == up(b); }
    static bool lt(char a, char b) noexcept { return static_cast<unsigned char>(up(a)) < static_cast<unsigned char>(up(b)); }
    static int  compare(const char* a, const char* b, std::size_t n)
    {
        for (std::size_t k = 0; k < n; k++)
        {
            if (lt(a[k], b[k])) return -1;
            if (lt(b[k], a[k])) return 1;
        }
        return 0;
    }
    static const char* find(const char* s, std::size_t n, const char& c)
    {
        for (std::size_t k = 0; k < n; k++)
            if (eq(s[k], c)) return s + k;
        return nullptr;
    }
};

std::size_t big(long long x) { return x < 0 ? static_cast<std::size_t>(-1) - static_cast<std::size_t>(-1 - x) : static_cast<std::size_t>(x); }
long long   pos_of(std::size_t x) { return x == static_cast<std::size_t>(-1) ? -1 : static_cast<long long>(x); }

template <typename K>
class Pool
{
    using C   = typename K::Char;
    using Tr  = typename K::Traits;
    using V   = cetl::pf17::basic_string_view<C, Tr>;
    using Str = std::basic_string<C, Tr>;

    struct Text
    {
        std::unique_ptr<C[]> raw;
        std::unique_ptr<Str> str;
        const C*             p{nullptr};
        std::vector<C>       was;
    };
    std::vector<Text> texts_;
    V                 v_[3];
    bool              kept_{true};

    static C letter(long long k) { return K::letters()[k]; }
    static int code(C c)
    {
        for (int k = 0; k < 6; k++)
            if (letter(k) == c) return k;
        return 9;
    }
    template <typename It>
    static std::string seq(It from, It to)
    {
        std::string o = "[";
        for (bool first = true; from != to; ++from, first = false) o += (first ? "" : ",") + std::to_string(code(*from));
        return o + "]";
    }
    static std::string seq(const std::vector<C>& x) { return seq(x.begin(), x.end()); }
    std::string post()
    {
        for (const auto& t : texts_)
            for (std::size_t k = 0; k < t.was.size(); k++) kept_ = kept_ && t.p[k] == t.was[k];
        std::string o = "[";
        for (int k = 0; k < 3; k++)
        {
            long long b = v_[k].data() == nullptr ? 0 : -1, at = 0;
            for (std::size_t j = 0; j < texts_.size(); j++)
            {
                const auto& t = texts_[j];
                if (v_[k].data() >= t.p && v_[k].data() <= t.p + t.was.size()) b = static_cast<long long>(j) + 1, at = v_[k].data() - t.p;
            }
            o += (k ? "," : "") + J().num("b", b).num("o", at).num("n", pos_of(v_[k].size())).done();
        }
        return o + "]";
    }
    Str str(const V& v) { return v.empty() ? Str() : Str(v.data(), v.size()); }
    bool has_null(const V& v)
    {
        for (std::size_t k = 0; k < v.size(); k++)
            if (v.data()[k] == C()) return true;
        return false;
    }
    template <typename S> std::string print(const Op& q, const V& v, long long& after, std::true_type)
    {
        S           os;
        const auto& adj = q.w.at(3);
        os.fill(letter(q.at(2)));
        if (adj == "left") os.setf(std::ios_base::left, std::ios_base::adjustfield);
        if (adj == "right") os.setf(std::ios_base::right, std::ios_base::adjustfield);
        if (adj == "internal") os.setf(std::ios_base::internal, std::ios_base::adjustfield);
        if (adj == "both") os.setf(std::ios_base::left | std::ios_base::right, std::ios_base::adjustfield);
        os.width(static_cast<std::streamsize>(q.at(1)));
        auto& r  = (os << v);
        after    = os.width();
        kept_    = kept_ && &r == &os && os.good();
        Str text = os.str();
        return seq(text.begin(), text.end());
    }
    template <typename S> std::string print(const Op&, const V&, long long&, std::false_type) { bad_script("no streams of this kind"); }

public:
    Pool(bool fold) { emit(J().str("op", "cfg").boolean("fold", fold)); }

    void step(const Op& q)
    {
        const int s  = static_cast<int>(q.at(0)) - 1;
        V&        v  = v_[s];
        const auto n = q.name;
        J          j;
        kept_ = true;
        j.str("op", n).num("s", s + 1);
        auto other = [&](std::size_t k) -> V& {
            j.num("d", q.at(k));
            return v_[q.at(k) - 1];
        };
        auto ranged = [&](auto f) {
            try
            {
                f();
                j.str("r", "ok");
            }
            catch (const std::out_of_range&)
            {
                j.str("r", "range");
            }
            catch (...)
            {
                j.str("r", "else");
            }
        };
        if (n == "fresh")  // s how letters...
        {
            Text        t;
            std::size_t len = q.a.size() - 2;
            bool        nul = false;
            for (std::size_t k = 0; k < len; k++) t.was.push_back(letter(q.at(k + 2))), nul = nul || q.at(k + 2) == 0;
            if (q.at(1) == 2)
            {
                t.str.reset(new Str(t.was.begin(), t.was.end()));
                t.p = t.str->data();
                v   = V(*t.str);
            }
            else
            {
                const bool z = q.at(1) == 1 && !nul;
                t.raw.reset(new C[len + (z ? 1 : 0)]);
                t.p = t.raw.get();
                for (std::size_t k = 0; k < len; k++) t.raw[k] = t.was[k];
                if (z) t.raw[len] = C();
                if (z)
                    v = t.p;
                else
                    v = V(t.p, len);
            }
            j.raw("t", seq(t.was));
            texts_.push_back(std::move(t));
        }
        else if (n == "clear") { v = V(); }
        else if (n == "assign")
        {
            V& d = other(1);
            V& r = (d = v);
            kept_ = kept_ && &r == &d;
        }
        else if (n == "swap")  // s d how
        {
            V& d = other(1);
            if (q.at(2) == 0) v.swap(d);
            else
            {
                using std::swap;
                swap(v, d);
            }
        }
        else if (n == "prefix" || n == "suffix")
        {
            const auto k = std::min<std::size_t>(big(q.at(1)), v.size());
            if (n == "prefix") v.remove_prefix(k);
            else v.remove_suffix(k);
            j.num("n", static_cast<long long>(k));
        }
        else if (n == "sub")  // s d p n
        {
            V& d = other(1);
            j.num("p", q.at(2)).num("n", q.at(3));
            ranged([&] {
                if (q.at(3) == -1) d = q.at(2) == 0 ? v.substr() : v.substr(big(q.at(2)));
                else d = v.substr(big(q.at(2)), big(q.at(3)));
            });
        }
        else if (n == "copy")  // s p n
        {
            const std::size_t  p = big(q.at(1)), c = big(q.at(2));
            const std::size_t  room = 2 + (p <= v.size() ? std::min(c, v.size() - p) : 0);
            std::unique_ptr<C[]> dest(new C[room]);
            std::size_t        ret = 0;
            for (std::size_t k = 0; k < room; k++) dest[k] = letter(5);
            j.num("p", q.at(1)).num("n", q.at(2));
            ranged([&] { ret = p == 0 ? v.copy(dest.get(), c) : v.copy(dest.get(), c, p); });
            j.num("ret", pos_of(ret)).raw("dest", seq(dest.get(), dest.get() + room));
        }
        else if (n == "at")
        {
            long long ret = 0;
            j.num("p", q.at(1));
            ranged([&] {
                const C& c = v.at(big(q.at(1)));
                ret        = code(c);
                kept_      = kept_ && &c == v.data() + big(q.at(1));
            });
            j.num("ret", ret);
        }
        else if (n == "findc")  // s letter p
        {
            const C c = letter(q.at(1));
            j.num("ch", q.at(1)).num("p", q.at(2)).num("ret", pos_of(q.at(2) == 0 ? v.find(c) : v.find(c, big(q.at(2)))));
        }
        else if (n == "finds")  // s d p how
        {
            V&                d = other(1);
            const std::size_t p = big(q.at(2));
            std::size_t       r = 0;
            const Str         t = str(d);
            if (q.at(3) == 1) r = v.find(t, p);
            else if (q.at(3) == 2 && !has_null(d)) r = v.find(t.c_str(), p);
            else r = p == 0 ? v.find(d) : v.find(d, p);
            j.num("p", q.at(2)).num("ret", pos_of(r));
        }
        else if (n == "cmp")  // s d how
        {
            V&        d = other(1);
            const Str a = str(v), b = str(d);
            int       c = 0;
            bool      r[6];
            auto      all = [&](const auto& x, const auto& y) {
                r[0] = x == y, r[1] = x != y, r[2] = x < y, r[3] = x > y, r[4] = x <= y, r[5] = x >= y;
            };
            if (q.at(2) == 1) c = v.compare(b), all(v, b);
            else if (q.at(2) == 2) c = v.compare(b), all(a, d);
            else if (q.at(2) == 3 && !has_null(d)) c = v.compare(b.c_str()), all(v, b.c_str());
            else c = v.compare(d), all(v, d);
            std::string o;
            for (bool x : r) o += std::string(o.empty() ? "[" : ",") + (x ? "true" : "false");
            j.num("ret", c < 0 ? -1 : c > 0 ? 1 : 0).raw("rel", o + "]");
        }
        else if (n == "walk")
        {
            const V        w = v;
            std::vector<C> by_index, by_range, by_at, by_end, odd;
            const auto     size = static_cast<std::size_t>(w.size());
            for (std::size_t k = 0; k < size; k++) by_index.push_back(w[k]), by_at.push_back(w.at(k)), kept_ = kept_ && &w[k] == w.data() + k;
            for (C c : w) by_range.push_back(c);
            if (size > 1)
            {
                odd.push_back(w.front());
                for (std::size_t k = 1; k + 1 < size; k++) odd.push_back(w.data()[k]);
                odd.push_back(w.back());
                kept_ = kept_ && &w.front() == w.data() && &w.back() == w.data() + size - 1;
            }
            else if (size == 1) odd.push_back(w.front()), kept_ = kept_ && &w.front() == &w.back();
            std::string o = "[" + seq(by_index) + "," + seq(by_range) + "," + seq(by_at) + "," + seq(odd) + "," + seq(w.begin(), w.end()) + "," +
                            seq(w.cbegin(), w.cend()) + "]";
            kept_ = kept_ && w.begin() == w.data() && w.cbegin() == w.data();
            o += ",\"sizes\":[" + std::to_string(w.size()) + "," + std::to_string(w.length()) + "," + std::to_string(w.end() - w.begin()) + "," +
                 std::to_string(w.cend() - w.cbegin()) + "]";
            j.raw("seqs", o).boolean("empty", w.empty());
        }
        else if (n == "out")  // s width fill adjust
        {
            long long after = -1;
            j.num("w", q.at(1)).num("fill", q.at(2)).str("adj", q.w.at(3));
            const auto text = print<std::basic_ostringstream<C, Tr>>(q, v, after, std::integral_constant<bool, !std::is_same<C, char32_t>::value && !std::is_same<C, char16_t>::value>{});
            j.raw("ret", text).num("after", after);
        }
        else { bad_script(n); }
        const auto p = post();
        emit(j.boolean("kept", kept_).raw("post", p));
    }
};
template <typename C, typename T>
void run(const std::vector<Op>& ops, bool fold = false)
{
    Pool<Kind<C, T>> p(fold);
    for (const auto& o : ops) p.step(o);
}
void history(const Op& hdr, const std::vector<Op>& ops)
{
    switch (hdr.at(0))
    {
    case 0: return run<char, std::char_traits<char>>(ops);
    case 1: return run<wchar_t, std::char_traits<wchar_t>>(ops);
    case 2: return run<char16_t, std::char_traits<char16_t>>(ops);
    case 3: return run<char32_t, std::char_traits<char32_t>>(ops);
    case 4: return run<char, FoldTraits>(ops, true);
    default: bad_script("kind");
    }
}
}  // namespace

int main(int argc, char** argv) { return drive(argc, argv, history); }
