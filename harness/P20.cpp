//! bound: one block of 24 bytes: every history of three (quick) or four (thorough) allocations and releases of objects of 2, 4 and 16 bytes, all object counts; pools with blocks of 64 bytes: every history of three (quick) or five (thorough) operations of copies and another type; containers of up to 40 elements with all values; refused counts: 21 at both ends of the range; arrays of up to 3
//! assume: the addresses given by operator new are those of the run
#include "common.hpp"
#include "Simu/utility/Memory.hpp"
#include <cstdint>
#include <limits>
#include <list>
#include <map>
#include <vector>

using namespace h;
namespace
{
struct alignas(16) Wide
{
    char c[16];
};
struct Piece
{
    std::uintptr_t from = 0, to = 0; // bytes
    int type = 0;
    std::size_t n = 0;
    bool live = false;
};
constexpr std::size_t Sizes[3] = {2, 4, 16}, Aligns[3] = {2, 4, 16};
template <class B> void* take(B& b, int type, std::size_t n)
{
    switch (type)
    {
    case 0: return b.template allocate<short>(n);
    case 1: return b.template allocate<int>(n);
    default: return b.template allocate<Wide>(n);
    }
}
template <class B> bool give(B& b, int type, void* p, std::size_t n)
{
    switch (type)
    {
    case 0: return b.template deallocate<short>(static_cast<short*>(p), n);
    case 1: return b.template deallocate<int>(static_cast<int*>(p), n);
    default: return b.template deallocate<Wide>(static_cast<Wide*>(p), n);
    }
}
constexpr std::size_t Size = 24;
// is there a gap that fits?
bool fits(const std::vector<Piece>& all, std::uintptr_t base, std::size_t bytes, std::size_t align)
{
    // a fitting place starts at the base or at the end of a piece, aligned up
    auto ok = [&](std::uintptr_t s) {
        s        = (s + align - 1) / align * align;
        bool yes = s + bytes <= base + Size;
        for (auto& q : all)
            if (q.live) yes = yes & ((s + bytes <= q.from) | (s >= q.to));
        return yes;
    };
    bool any = ok(base);
    for (auto& q : all)
        if (q.live) any = any | ok(q.to);
    return any;
}
void blockHistory(int steps)
{
    Block b{Size};
    auto base = reinterpret_cast<std::uintptr_t>(b.allocate<char>(1));
    sx::check("bytes of a block are released", b.deallocate<char>(reinterpret_cast<char*>(base), 1));
    sx::check("a block of which all is released is empty", b.isEmpty());
    std::vector<Piece> all;
    for (int i = 0; i < steps; ++i)
    {
        int live = 0;
        for (auto& q : all) live += q.live;
        int what = live ? sx::choose("operation", 2) : 0;
        if (what == 0)
        {
            int type      = sx::choose("type", 3);
            std::size_t n = static_cast<std::size_t>(sx::integer("n", 0, static_cast<int>(Size / Sizes[type]) + 1));
            void* p       = take(b, type, n);
            auto from     = reinterpret_cast<std::uintptr_t>(p);
            if (known(p == nullptr))
            {
                sx::check("an allocation that fits is made", (n == 0) | !fits(all, base, n * Sizes[type], Aligns[type]));
                continue;
            }
            sx::check("nothing is given for no objects", n != 0);
            auto to = from + n * Sizes[type];
            sx::check("allocations are aligned", from % Aligns[type] == 0);
            sx::check("allocations lie in their block", (from >= base) & (to <= base + Size));
            for (auto& q : all)
                if (q.live) sx::check("allocations do not overlap", (to <= q.from) | (from >= q.to));
            all.push_back(Piece{from, to, type, n, true});
        }
        else
        {
            int k = sx::choose("which", live);
            for (auto& q : all)
                if (q.live && k-- == 0)
                {
                    sx::check("allocations of a block are released", give(b, q.type, reinterpret_cast<void*>(q.from), q.n));
                    q.live = false;
                    break;
                }
        }
        bool some = false;
        for (auto& q : all) some = some || q.live;
        sx::check("a block is empty when all is released", b.isEmpty() == !some);
    }
    char other[4];
    sx::check("memory of others is refused", !b.deallocate<char>(other, 1));
    for (auto& q : all)
        if (q.live) sx::check("allocations of a block are released", give(b, q.type, reinterpret_cast<void*>(q.from), q.n));
    sx::check("a block is empty when all is released", b.isEmpty());
    char* p = b.allocate<char>(Size);
    sx::check("an empty block can be used as a whole", reinterpret_cast<std::uintptr_t>(p) == base);
    sx::check("a full block has no more", b.allocate<char>(1) == nullptr);
    b.deallocate<char>(p, Size);
}
} // namespace

SX_HARNESS(block, "int,quickonly") { blockHistory(3); }
SX_HARNESS(blockMore, "int,thorough") { blockHistory(4); }

namespace
{
// counts what is taken and given back
struct Count
{
    int allocations = 0, released = 0;
    std::size_t bytes = 0;
};
template <class T> struct Counting
{
    typedef T value_type;
    Count* c;
    explicit Counting(Count* c) : c{c} {}
    template <class U> Counting(const Counting<U>& o) : c{o.c} {}
    T* allocate(std::size_t n)
    {
        ++c->allocations;
        c->bytes += n * sizeof(T);
        return std::allocator<T>{}.allocate(n);
    }
    void deallocate(T* p, std::size_t n)
    {
        ++c->released;
        c->bytes -= n * sizeof(T);
        std::allocator<T>{}.deallocate(p, n);
    }
    template <class U> bool operator==(const Counting<U>& o) const { return c == o.c; }
};
int made, gone, refuse = -1;
struct First
{
    virtual ~First() = default;
    int f = 1;
};
struct Second
{
    virtual ~Second() = default;
    int s = 2;
};
struct Thing : First, Second
{
    int a;
    float b;
    Thing* self;
    explicit Thing(int a = 5, float b = 6) : a{a}, b{b}, self{this}
    {
        if (made == refuse) throw 1;
        ++made;
    }
    ~Thing()
    {
        sx::check("objects are destroyed where they were made", self == this);
        ++gone;
    }
};
} // namespace
// one history of an allocator shared by copies and types
namespace
{
void shared(int steps)
{
    typedef FreeListAllocator<int, 64> A;
    A a;
    FreeListAllocator<double, 64> d{a};
    A b;
    sx::check("copies of an allocator, of any type, are equal, others are not", a == d && d == a && !(a == b) && a != b && A{a} == a);
    struct Got
    {
        bool wide = false;
        std::size_t n = 0;
        unsigned char* p = nullptr;
        unsigned char mark = 0;
    };
    std::vector<Got> got;
    const std::size_t counts[5] = {1, 3, 7, 8, 40};
    for (int i = 0; i < steps; ++i)
    {
        int k = sx::choose("operation", 6);
        if (k == 5)
        {
            if (got.empty()) continue;
            int w = sx::choose("which", static_cast<int>(got.size()));
            Got g = got[w];
            got.erase(got.begin() + w);
            // through a copy
            if (g.wide) FreeListAllocator<double, 64>{a}.deallocate(reinterpret_cast<double*>(g.p), g.n);
            else A{d}.deallocate(reinterpret_cast<int*>(g.p), g.n);
        }
        else
        {
            Got g{sx::choose("wide", 2) != 0, counts[k], nullptr, static_cast<unsigned char>(i + 1)};
            g.p = g.wide ? reinterpret_cast<unsigned char*>(d.allocate(g.n)) : reinterpret_cast<unsigned char*>(a.allocate(g.n));
            sx::check("allocations are aligned", reinterpret_cast<std::uintptr_t>(g.p) % (g.wide ? 8 : 4) == 0);
            for (std::size_t j = 0; j < g.n * (g.wide ? 8 : 4); ++j) g.p[j] = g.mark;
            got.push_back(g);
        }
        bool kept = true;
        for (auto& g : got)
            for (std::size_t j = 0; j < g.n * (g.wide ? 8 : 4); ++j) kept = kept && g.p[j] == g.mark;
        sx::check("what is written to an allocation stays", kept);
    }
    for (auto& g : got) a.deallocate(reinterpret_cast<int*>(g.p), g.n * (g.wide ? 2 : 1));
}
} // namespace
SX_HARNESS(allocator, "quickonly") { shared(3); }
SX_HARNESS(allocatorMore, "thorough") { shared(5); }
SX_HARNESS(counts, "")
{
    FreeListAllocator<int, 64> a;
    std::allocator_traits<FreeListAllocator<int, 64>>::deallocate(a, a.allocate(0), 0);
    // more objects than memory can have bytes
    std::size_t max = std::numeric_limits<std::size_t>::max();
    std::size_t off = static_cast<std::size_t>(sx::integer("k", 0, 20));
    std::size_t n   = sx::choose("near", 2) ? max - off : max / sizeof(int) + 1 + off;
    bool refused    = false;
    try
    {
        int* p = a.allocate(n);
        a.deallocate(p, n);
    }
    catch (std::bad_alloc&)
    {
        refused = true;
    }
    sx::check("counts that exceed the memory are refused", refused);
}
// containers that use it
SX_HARNESS(containers, "")
{
    typedef FreeListAllocator<int, 64> A;
    A a, b;
    std::vector<int, A> v{a}, u{a}, w{b};
    std::list<int, A::rebind<int>::other> l{a};
    std::map<int, int, std::less<int>, FreeListAllocator<std::pair<const int, int>, 64>> m{a};
    int n = 1 + sx::choose("n", 40), x = sx::integer("x", -1000, 1000);
    for (int i = 0; i < n; ++i)
    {
        v.push_back(x + i);
        if (i % 2) l.push_back(x + i);
        if (i % 3 == 0) m[i] = x - i;
        w.push_back(-i);
    }
    u = v;
    switch (sx::choose("operation", 4))
    {
    case 0: v.clear(), v.shrink_to_fit(), l.clear(); break;
    case 1: replaceAllocator(w, a); sx::check("the allocator is replaced", w.get_allocator() == a); break;
    case 2: std::swap(u, w), std::swap(u, w); break;
    default: w = std::move(u), u = v, w.assign(n, 0); for (int i = 0; i < n; ++i) w[i] = -i; break;
    }
    bool good = true;
    for (int i = 0; i < n; ++i) good = good & (u[i] == x + i) & (w[i] == -i);
    for (auto& e : m) good = good & (e.second == x - e.first);
    int k = 1;
    for (int e : l) good = good & (e == x + k), k += 2;
    sx::check("containers keep what they have", good && static_cast<int>(u.size()) == n && static_cast<int>(w.size()) == n);
}
// pointers that own what an allocator gave
SX_HARNESS(unique, "")
{
    made = gone = 0;
    refuse = -1;
    Count c;
    int x   = sx::integer("x", -1000, 1000);
    float y = sx::real("y", -8, 8);
    {
        Counting<char> a{&c};
        UniquePtr<Thing> p = makeUnique<Thing>(a, x, y);
        sx::check("an object is made of its arguments", p->a == x && p->b == y && made == 1 && c.allocations == 1);
        switch (sx::choose("as", 4))
        {
        case 0: break;
        case 1: { UniquePtr<First> q = std::move(p); sx::check("an object can be owned by its bases", q->f == 1 && gone == 0); break; }
        case 2: { UniquePtr<Second> q = std::move(p); sx::check("an object can be owned by its bases", q->s == 2 && gone == 0); break; }
        default: p = makeUnique<Thing>(a, x, y); sx::check("an owner replaced destroys its object", made == 2 && gone == 1); break;
        }
    }
    sx::check("objects are destroyed once and their memory given back", gone == made && c.released == c.allocations && c.bytes == 0);
    // the pointer may outlive the allocator
    {
        UniquePtr<Thing> p;
        {
            FreeListAllocator<int, 64> a;
            p = makeUnique<Thing>(a, x, y);
        }
        sx::check("an object outlives its allocator", p->a == x);
    }
    sx::check("objects are destroyed once and their memory given back", gone == made);
}
SX_HARNESS(refusing, "")
{
    made = gone = 0;
    refuse = 0;
    Count c;
    bool threw = false;
    try
    {
        makeUnique<Thing>(Counting<char>{&c}, 1, 2.f);
    }
    catch (int)
    {
        threw = true;
    }
    sx::check("an object that fails to be made leaves no memory", threw && made == 0 && gone == 0 && c.bytes == 0 && c.released == c.allocations);
    // the second of three
    made = gone = 0;
    refuse = sx::choose("refused", 3);
    threw = false;
    try
    {
        makeUnique<Thing[]>(Counting<char>{&c}, 3);
    }
    catch (int)
    {
        threw = true;
    }
    sx::check("an array that fails to be made leaves no objects and no memory", threw && made == refuse && gone == made && c.bytes == 0 && c.released == c.allocations);
    made = gone = 0;
    refuse = -1;
    int n = sx::choose("n", 4);
    {
        auto p = makeUnique<Thing[]>(Counting<char>{&c}, n);
        sx::check("an array is made of default objects", made == n && (n == 0 || (p[n - 1].a == 5 && p[n - 1].self == &p[n - 1])));
        auto q = std::move(p);
        sx::check("an array is owned by one", gone == 0 && !p);
    }
    sx::check("objects of an array are destroyed once and their memory given back", gone == n && c.bytes == 0 && c.released == c.allocations);
}
