// Preconditions of the reference semantics (interpreted by sa/contracts.py).
#pragma once
namespace spec {
void assume(bool);
void assume_eq(double leaf, double value);
void assume_eq(const void* leaf, const void* value);
void assume_real(double leaf, double low, double high);  // low < leaf < high
template <class V> void assume_elems(const V& leaf, double low, double high);  // every element an integer in [low, high)
void assume_in(double leaf, double low, double high);  // integer range [low, high)
}
