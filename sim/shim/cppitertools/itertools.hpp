// Minimal stand-in for the one cppitertools facility the repository uses (iter::enumerate).
#pragma once
#include <cstddef>
#include <iterator>
#include <utility>
namespace iter {
template <class C> struct Enumerated {
    C container;
    template <class It> struct Iter {
        std::size_t idx; It it;
        bool operator!=(const Iter& o) const { return it != o.it; }
        bool operator==(const Iter& o) const { return it == o.it; }
        Iter& operator++() { ++idx; ++it; return *this; }
        auto operator*() const { return std::pair<std::size_t, decltype(*it)>(idx, *it); }
    };
    auto begin() { using std::begin; auto i = begin(container); return Iter<decltype(i)>{0, i}; }
    auto end()   { using std::end;   auto i = end(container);   return Iter<decltype(i)>{0, i}; }
    auto begin() const { using std::begin; auto i = begin(container); return Iter<decltype(i)>{0, i}; }
    auto end()   const { using std::end;   auto i = end(container);   return Iter<decltype(i)>{0, i}; }
};
template <class C> Enumerated<C> enumerate(C&& c) { return {std::forward<C>(c)}; }
}
