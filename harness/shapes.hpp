// Convex polygons on a small integer lattice, counterclockwise.
#pragma once
#include "common.hpp"
#include "Simu/math/Polygon.hpp"

namespace
{
constexpr int NShapes = 8;
inline Vertices shape(int i)
{
    switch (i)
    {
    case 0: return {Vec2{0, 0}, Vec2{2, 0}, Vec2{2, 2}, Vec2{0, 2}};
    case 1: return {Vec2{0, 0}, Vec2{3, 1}, Vec2{1, 4}};
    case 2: return {Vec2{-1, 0}, Vec2{0, -2}, Vec2{3, -1}, Vec2{2, 2}, Vec2{0, 3}};
    case 3: return {Vec2{0, 0}, Vec2{8, 1}, Vec2{4, 1}};
    case 4: return {Vec2{0, -2}, Vec2{2, 0}, Vec2{0, 2}, Vec2{-2, 0}};
    case 5: return {Vec2{0, 0}, Vec2{4, 0}, Vec2{0, 4}};
    case 6: return {Vec2{0, 0}, Vec2{2, 0}, Vec2{3, 1}, Vec2{3, 3}, Vec2{1, 3}, Vec2{0, 2}};
    default: return {Vec2{0, 0}, Vec2{1, 0}, Vec2{1, 8}, Vec2{0, 8}};
    }
}
inline Vertices shifted(Vertices v, Vec2 t)
{
    for (auto& x : v) x = Vec2{x[0] + t[0], x[1] + t[1]};
    return v;
}
inline simu::Polygon moved(const Vertices& v, Vec2 t)
{
    Vertices w;
    for (auto& x : v) w.emplace_back(x + t);
    return simu::Polygon(w.begin(), w.end());
}
// closed convex polygons: a common point exists iff no edge line separates them
template <class A, class B>
bool oneSided(const A& a, const B& b, float slack)
{
    bool sep   = false;
    auto prev  = *(a.end() - 1);
    for (auto& x : a)
    {
        Vec2 d{x[0] - prev[0], x[1] - prev[1]};
        bool all = true;
        for (auto& y : b) all = all & (d[0] * (y[1] - prev[1]) - d[1] * (y[0] - prev[0]) < -slack);
        sep  = sep | all;
        prev = x;
    }
    return sep;
}
template <class A, class B>
bool overlapping(const A& a, const B& b, float slack = 0)
{
    return !oneSided(a, b, slack) & !oneSided(b, a, slack);
}
} // namespace
