//! bound: every history of up to 3 (quick) or 4 (thorough) insertions followed by up to 2 erasures, updates or insertions; box extents on one axis are arbitrary integers in [0, 15], on the other they come from a family with nested, touching, disjoint and flat extents (both axes take either role)
//! assume: none beyond the bounds
#include "rtree.hpp"

namespace
{
void op(Model& m)
{
    int n = m.live.size();
    int k = sx::choose("op", n ? 1 + 2 * n : 1);
    if (k == 0) m.insert();
    else if (k <= n) m.erase(k - 1);
    else m.update(k - n - 1);
}
void history(int maxInsert, int ops, int last)
{
    Model m{sx::tier() ? 15 : 15};
    m.axis = sx::choose("axis", 2);
    int n  = sx::choose("inserted", maxInsert + 1);
    for (int i = 0; i < n; ++i) m.insert();
    for (int i = 0; i < ops; ++i) op(m);
    if (last == 0) m.contents();
    if (last == 1) m.query();
    if (last == 2) m.at();
    if (last == 3 && !m.live.empty()) m.neighbours(sx::choose("of", m.live.size()));
}
// a fixed population, then operations of which some have arbitrary boxes
void populated(int pops, int symbolicOps, int erasures, int last)
{
    Model m{15};
    m.axis    = sx::choose("axis", 2);
    int start = sx::choose("population", pops);
    int n     = 3 + start % 3;
    for (int i = 0; i < n; ++i) m.insertFixed(start * 3 + i * (start % 2 ? 3 : 1));
    for (int i = 0; i < symbolicOps; ++i)
    {
        int k = sx::choose("op", 1 + m.live.size());
        k == 0 ? m.insert() : m.update(k - 1);
    }
    for (int i = 0; i < erasures; ++i) m.erase(sx::choose("erased", m.live.size()));
    if (last == 0) m.contents();
    if (last == 1) m.query();
    if (last == 2) m.at();
    if (last == 3 && !m.live.empty()) m.neighbours(sx::choose("of", m.live.size()));
}
} // namespace
SX_HARNESS(contents, "") { sx::tier() ? history(3, 0, 0) : history(2, 1, 0); }
SX_HARNESS(queries, "") { history(2, 0, 1); }
SX_HARNESS(points, "") { history(2, 0, 2); }
SX_HARNESS(populatedContents, "") { populated(sx::tier() ? 6 : 3, 1, 1, 0); }
SX_HARNESS(populatedQueries, "") { populated(sx::tier() ? 6 : 3, 0, 1, 1); }
SX_HARNESS(updatedQueries, "") { populated(sx::tier() ? 6 : 2, 1, 0, 1); }
SX_HARNESS(updatedNeighbours, "") { populated(sx::tier() ? 6 : 2, 1, 0, 3); }
SX_HARNESS(erased, "") { populated(sx::tier() ? 6 : 3, 0, 3, 1); }
SX_HARNESS(twoUpdates, "thorough") { populated(3, 2, 0, 0); }
SX_HARNESS(histories, "thorough") { history(2, 1, 1); }
// transfer of the elements to another tree
SX_HARNESS(moved, "")
{
    Model a{15}, b{15};
    int n = sx::choose("n", 3);
    for (int i = 0; i < n; ++i) a.insert();
    int how = sx::choose("how", 3);
    if (how == 0)
    {
        Tree c{std::move(a.t)};
        a.t = std::move(c);
    }
    else if (how == 1)
    {
        b.insert();
        b.t = std::move(a.t);
        b.live = a.live;
        b.next = a.next;
        b.contents();
        return;
    }
    else
    {
        a.t.clear();
        a.live.clear();
        a.contents();
        a.next = 0;
        a.insert();
    }
    a.contents();
    a.query();
}
SX_HARNESS(movedFrom, "")
{
    Tree a;
    float x = sx::lat("x", 0, 15);
    a.insert(BoundingBox{Vec2{x, 0}, Vec2{x, 1}}, 3);
    Tree b{std::move(a)};
    int n = 0;
    b.forEachAt(Vec2{x, 1}, [&](Tree::iterator it) { n += *it; });
    sx::check("a tree that is moved to has the elements", n == 3 && b.size() == 1);
    sx::check("a tree that is moved from is empty", a.isEmpty() && a.size() == 0);
    a.insert(BoundingBox{Vec2{x, 0}, Vec2{x, 1}}, 4);
    sx::check("a tree that is moved from can be used again", a.size() == 1 && *a.begin() == 4);
}
