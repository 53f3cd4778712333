// Stand-in for thinks::PoissonDiskSampling (absent offline): the harness decides the samples.
#pragma once
#include <array>
#include <cstdint>
#include <functional>
#include <vector>
namespace thinks {
template <class F, std::size_t N> struct MCSampler { static std::function<std::vector<std::array<F,N>>(F,const std::array<F,N>&,const std::array<F,N>&,std::uint32_t,std::uint32_t)>& fn(){ static std::function<std::vector<std::array<F,N>>(F,const std::array<F,N>&,const std::array<F,N>&,std::uint32_t,std::uint32_t)> f; return f; } };
template <class F, std::size_t N> std::vector<std::array<F,N>> PoissonDiskSampling(F radius, const std::array<F,N>& lo, const std::array<F,N>& hi, std::uint32_t attempts = 30, std::uint32_t seed = 0){ return MCSampler<F,N>::fn()(radius, lo, hi, attempts, seed); }
}
