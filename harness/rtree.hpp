// A model of the tree: live values with their boxes.
#pragma once
#include "common.hpp"
#include "Simu/physics/RTree.hpp"
using namespace h;

namespace
{
typedef RTree<int> Tree;
struct Entry
{
    int value;
    BoundingBox box;
    Tree::iterator it;
};
struct Model
{
    Tree t;
    std::vector<Entry> live;
    int next = 0;
    int span;

    explicit Model(int span) : span{span} {}
    // the extent on one axis is arbitrary, on the other from a family
    BoundingBox box(int family)
    {
        static const float O[7][2] = {{0, 4}, {2, 3}, {-3, 0}, {4, 9}, {3, 3}, {-8, 8}, {1, 2}};
        float lo = sx::lat("lo", 0, span), hi = sx::lat("hi", 0, span);
        sx::assume(lo <= hi);
        const float* o = O[family % 7];
        if (axis == 0) return BoundingBox{Vec2{lo, o[0]}, Vec2{hi, o[1]}};
        return BoundingBox{Vec2{o[0], lo}, Vec2{o[1], hi}};
    }
    int axis = 0;
    int fam  = 0;
    BoundingBox fixedBox(int k)
    {
        static const float B[10][4] = {{0, 0, 2, 2}, {1, 1, 3, 4}, {6, 0, 8, 3}, {10, 5, 15, 6}, {2, 2, 2, 2},
                                       {-4, -3, 20, 12}, {7, 3, 9, 9}, {12, 0, 13, 14}, {0, 8, 5, 9}, {14, 14, 15, 15}};
        const float* b = B[k % 10];
        return BoundingBox{Vec2{b[0], b[1]}, Vec2{b[2], b[3]}};
    }
    void insertFixed(int k)
    {
        BoundingBox b = fixedBox(k);
        live.push_back({next, b, t.insert(b, next)});
        ++next;
    }

    void insert()
    {
        BoundingBox b = box(fam++);
        Tree::iterator it = next % 2 ? t.insert(b, next) : t.emplace(b, next);
        live.push_back({next, b, it});
        ++next;
    }
    void erase(int i)
    {
        t.erase(live[i].it);
        live.erase(live.begin() + i);
    }
    void update(int i)
    {
        BoundingBox b = box(fam++);
        live[i].it    = t.update(live[i].it, b);
        live[i].box   = b;
    }
    // iteration, size, bounds
    void contents()
    {
        std::vector<int> seen(next, 0);
        bool valid = true, boxes = true;
        int n = 0;
        for (auto it = t.begin(); it != t.end(); ++it)
        {
            if (++n > 20) break;
            int v = *it;
            valid = valid && v >= 0 && v < next;
            if (!valid) break;
            ++seen[v];
            BoundingBox b = it.bounds();
            for (auto& e : live)
                if (e.value == v)
                    boxes = boxes & (b.min()[0] == e.box.min()[0]) & (b.min()[1] == e.box.min()[1]) & (b.max()[0] == e.box.max()[0]) & (b.max()[1] == e.box.max()[1]);
        }
        std::vector<int> want(next, 0);
        for (auto& e : live) ++want[e.value];
        sx::check("iteration visits every element exactly once", valid && seen == want);
        sx::check("elements keep their bounds", boxes);
        sx::check("size is the number of elements", t.size() == live.size());
        sx::check("empty exactly without elements", t.isEmpty() == live.empty());
        bool handles = true;
        for (auto& e : live) handles = handles && *e.it == e.value;
        sx::check("iterators stay valid", handles);
        BoundingBox all{};
        for (auto& e : live) all = all.combined(e.box);
        sx::check("bounds of the tree are those of its elements", t.bounds() == all);
    }
    void query()
    {
        BoundingBox q = box(2 + fam++);
        std::vector<int> seen(next, 0);
        t.forEachIn(q, [&](Tree::iterator it) { ++seen[*it]; });
        bool ok = true;
        for (auto& e : live)
        {
            bool o = q.overlaps(e.box);
            ok     = ok & (o ? seen[e.value] == 1 : seen[e.value] == 0);
            seen[e.value] = 0;
        }
        for (int s : seen) ok = ok & (s == 0);
        sx::check("a query visits exactly the overlapping elements, once", ok);
    }
    void at()
    {
        float x = sx::lat("x", 0, span);
        Vec2 p  = axis == 0 ? Vec2{x, 2} : Vec2{2, x};
        std::vector<int> seen(next, 0);
        t.forEachAt(p, [&](Tree::iterator it) { ++seen[*it]; });
        bool ok = true;
        for (auto& e : live) ok = ok & ((e.box.min()[0] <= p[0]) & (p[0] <= e.box.max()[0]) & (e.box.min()[1] <= p[1]) & (p[1] <= e.box.max()[1]) ? seen[e.value] == 1 : seen[e.value] == 0);
        sx::check("a point query visits exactly the elements there, once", ok);
    }
    void neighbours(int i)
    {
        std::vector<int> seen(next, 0);
        t.forEachOverlapping(live[i].it, [&](Tree::iterator it) { ++seen[*it]; });
        bool ok = seen[live[i].value] == 0;
        for (auto& e : live)
            if (e.value != live[i].value)
                ok = ok & (e.box.overlaps(live[i].box) ? seen[e.value] == 1 : seen[e.value] == 0);
        sx::check("an element's overlapping elements are visited, once", ok);
    }
};
} // namespace
