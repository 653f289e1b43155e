#pragma once
namespace glbinding
{
template <class F> void initialize(F&&, bool = true) {}
} // namespace glbinding
