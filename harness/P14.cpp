//! bound: trees of 0..3 elements whose updated boxes are all arbitrary on one axis, and of 3..6 (quick) or up to 20 (thorough) elements of which one or two updated boxes are arbitrary integers in [0, 15] on one axis with a family of extents on the other; two successive updates
//! assume: none beyond the bounds
#include "rtree.hpp"

namespace
{
struct Collide : Model
{
    using Model::Model;
    std::vector<BoundingBox> target;

    void step()
    {
        std::vector<int> updated(next, 0), pairs(next * next, 0);
        bool known = true;
        t.updateAndCollide(
            [&](Tree::iterator it) {
                ++updated[*it];
                return target[*it];
            },
            [&](Tree::iterator a, Tree::iterator b) {
                known = known && *a >= 0 && *a < next && *b >= 0 && *b < next;
                if (!known) return;
                ++pairs[std::min(*a, *b) * next + std::max(*a, *b)];
            }
        );
        bool once = known, asked = true;
        std::vector<int> alive(next, 0);
        for (auto& e : live)
        {
            alive[e.value] = 1;
            e.box          = target[e.value];
        }
        for (int i = 0; i < next; ++i)
        {
            asked = asked && updated[i] == alive[i];
            for (int j = i; j < next; ++j)
            {
                int c = pairs[i * next + j];
                if (i == j || !alive[i] || !alive[j])
                    once = once & (c == 0);
                else
                    once = once & (target[i].overlaps(target[j]) ? c == 1 : c == 0);
            }
        }
        sx::check("every element is asked for its new bounds once", asked);
        sx::check("exactly the overlapping pairs are reported, once", once);
    }
    void all(int symbolicFrom)
    {
        target.clear();
        for (int i = 0; i < next; ++i) target.push_back(i >= symbolicFrom ? box(fam++) : fixedBox(i + 4));
    }
};
} // namespace

SX_HARNESS(small, "")
{
    Collide m{15};
    m.axis = sx::choose("axis", 2);
    int n  = sx::choose("n", 4);
    for (int i = 0; i < n; ++i) m.insertFixed(i);
    m.all(0);
    m.step();
    m.contents();
}
SX_HARNESS(medium, "")
{
    Collide m{15};
    m.axis = sx::choose("axis", 2);
    int n  = 3 + sx::choose("n", 4);
    for (int i = 0; i < n; ++i) m.insertFixed(i * 3);
    int k = sx::choose("which", n);
    for (int i = 0; i < n; ++i) m.target.push_back(i == k ? m.box(2 + i) : m.fixedBox(i + 4));
    m.step();
    m.contents();
}
SX_HARNESS(two, "")
{
    Collide m{15};
    m.axis = sx::choose("axis", 2);
    int n  = 4;
    for (int i = 0; i < n; ++i) m.insertFixed(i * 3);
    int k = sx::choose("which", sx::tier() ? n : 1);
    for (int i = 0; i < n; ++i) m.target.push_back(i == k || i == (k + 1) % n ? m.box(2 + i) : m.fixedBox(i + 4));
    m.step();
    m.query();
}
// a second update works on the tree the first one built, with elements removed and added in between
SX_HARNESS(repeated, "")
{
    Collide m{15};
    int n = 4;
    for (int i = 0; i < n; ++i) m.insertFixed(i * 3);
    for (int i = 0; i < n; ++i) m.target.push_back(m.fixedBox(i));
    int k       = sx::choose("which", n);
    m.target[k] = m.box(4);
    m.step();
    int op = sx::choose("op", 3);
    if (op == 0) m.erase(sx::choose("erased", n));
    if (op == 1)
    {
        m.insertFixed(6);
        m.target.push_back(m.fixedBox(6));
    }
    if (op == 2)
        while (m.live.size() > 1) m.erase(1);
    m.step();
    m.contents();
}
SX_HARNESS(many, "thorough")
{
    Collide m{15};
    int n = 20;
    for (int i = 0; i < n; ++i) m.insertFixed(i * 3);
    for (int i = 0; i < n; ++i) m.target.push_back(m.fixedBox(i * 7 + i / 10));
    m.target[sx::choose("which", n)] = m.box(4);
    m.step();
    m.contents();
}
SX_HARNESS(stacked, "")
{
    // equal boxes cannot be split by position
    Collide m{15};
    int n = 2 + sx::choose("n", 4);
    for (int i = 0; i < n; ++i) m.insertFixed(0);
    BoundingBox b = m.box(5);
    for (int i = 0; i < n; ++i) m.target.push_back(b);
    m.step();
    m.contents();
}
// overlaps of a chosen list of elements
SX_HARNESS(listed, "")
{
    Collide m{15};
    int n = 1 + sx::choose("n", sx::tier() ? 3 : 2);
    for (int i = 0; i < n; ++i) m.insert();
    Tree other;
    std::vector<BoundingBox> boxes;
    std::vector<Tree::iterator> its;
    int k = 1 + sx::choose("k", 2);
    for (int i = 0; i < k; ++i)
    {
        boxes.push_back(i == 0 ? m.box(3 + i) : m.fixedBox(5));
        its.push_back(other.insert(boxes[i], i));
    }
    std::vector<int> pairs(n * k, 0);
    m.t.forEachOverlapping(makeView(its.data(), its.data() + k), [&](Tree::iterator a, Tree::iterator b) { ++pairs[*a * k + *b]; });
    bool ok = true;
    for (auto& e : m.live)
        for (int j = 0; j < k; ++j) ok = ok & (e.box.overlaps(boxes[j]) ? pairs[e.value * k + j] == 1 : pairs[e.value * k + j] == 0);
    sx::check("listed elements meet exactly the overlapping elements, once", ok);
}
