// The configurations a one-container property is explored in, split in parts that are compiled
// and run side by side (-DPART=k).  A visitor is a class template with a static visit(State<C>&)
// and a constant `less` that takes that many elements off the bounds when its visits are costly.
#pragma once
#include "catalog.hpp"
#ifndef PART
#define PART 1
#endif
namespace mc {
using TF = Trk<CPY | MOV | DFL | CMP>;
using TM = Trk<MOV | DFL | CMP>;
using TC = Trk<CPY | DFL | CMP>;
using TX = Trk<CPY | MOV | DFL | CMP | 32>;
using TN = Trk<CPY | MOV>;                            // nothing but copy and move
using TH = Trk<CPY | MOV | DFL | CMP | HOSTILE>;

template <class C, class V> void bfs(const char* name, size_t quick, size_t thorough, int less, V visit) {
  size_t n = R.thorough() ? thorough : quick;
  Explorer<C> e; e.explore(name, n > size_t(less) ? n - less : 2, visit);
}
template <class C, class V> void from(const char* name, std::vector<std::vector<BOp>> roots, unsigned quick_depth, unsigned thorough_depth, V visit) {
  Explorer<C> e; e.explore_from(name, std::move(roots), SIZE_MAX, R.thorough() ? thorough_depth : quick_depth, visit);
}
#define BFS(name, q, t, ...) bfs<__VA_ARGS__>(name, q, t, V<__VA_ARGS__>::less, V<__VA_ARGS__>::visit)
#define FROM(name, roots, q, t, ...) from<__VA_ARGS__>(name, roots, q, t, V<__VA_ARGS__>::visit)
constexpr int kSuiteParts = 8;
template <template <class> class V> void suite() {
#if PART == 1
  BFS("Trk 1,3", 24, 28, Cfg<TF, 1, 3>);
  BFS("Trk 2,3", 13, 15, Cfg<TF, 2, 3>);
#elif PART == 2
  BFS("Trk 3,3", 21, 26, Cfg<TF, 3, 3>);
  BFS("Trk 4,3", 17, 21, Cfg<TF, 4, 3>);
  BFS("Trk 1,4", 18, 21, Cfg<TF, 1, 4>);
  BFS("Trk 1,5", 22, 27, Cfg<TF, 1, 5>);
  BFS("Trk 5,4", 20, 25, Cfg<TF, 5, 4>);
#elif PART == 3
  BFS("u32 1,3", 21, 26, Cfg<uint32_t, 1, 3>);
  BFS("u32 2,3", 12, 14, Cfg<uint32_t, 2, 3>);
  BFS("u32 3,3", 20, 25, Cfg<uint32_t, 3, 3>);
  BFS("u32 4,3", 16, 20, Cfg<uint32_t, 4, 3>);
  BFS("u32 3,5", 20, 25, Cfg<uint32_t, 3, 5>);
#elif PART == 4
  BFS("move-only 2,3", 11, 13, Cfg<TM, 2, 3>);
  BFS("copy-only 3,3", 16, 18, Cfg<TC, 3, 3>);
  BFS("u32 construct/destroy 2,3", 11, 13, Cfg<uint32_t, 2, 3, A_CON | A_DES>);
  BFS("24 bytes 3,3", 17, 22, Cfg<Tv<24>, 3, 3>);
  BFS("std::allocator u64 2,3", 11, 13, StdCfg<uint64_t, 2, 3>);
  BFS("std::allocator string 3,3", 12, 15, StdCfg<std::string, 3, 3>);
#elif PART == 5
  FROM("Trk 8,6", fills({20, 45, 70}), 1, 1, Cfg<TF, 8, 6>);
  FROM("u32 7,5", fills({19, 37, 66}), 1, 1, Cfg<uint32_t, 7, 5>);
  FROM("Trk 6,7", fills({25, 60}), 1, 1, Cfg<TF, 6, 7>);
#elif PART == 6
  FROM("tall Trk 1,3", fills({33, 64, 100}), 1, 1, Cfg<TF, 1, 3>);
  FROM("tall u32 2,3", fills({50, 90}), 1, 1, Cfg<uint32_t, 2, 3>);
  FROM("tall Trk 3,4", fills({70, 110}), 1, 1, Cfg<TF, 3, 4>);
#elif PART == 7
  FROM("default u64", fills({100, 128, 129, 500, 3050, 6100, 7000}), 0, 0, StdCfg<uint64_t, 128, 47, 1024, 768>);
  FROM("0/512 u64", fills({31, 32, 62, 63, 500, 1000}), 0, 1, Cfg<uint64_t, 1, 31, 0, 0, 512>);
  FROM("512/0 u64", fills({64, 65, 96, 130, 300, 700}), 0, 1, Cfg<uint64_t, 64, 3, 0, 512, 0>);
  FROM("default Trk", fills({42, 43, 90, 2100}), 0, 1, Cfg<TF, 1024 / sizeof(TF), 47, 0, 1024, 768>);
#elif PART == 8
  FROM("default u8", fills({1024, 1025, 3000, 66000}), 0, 0, Cfg<uint8_t, 1024, 47, 0, 1024, 768>);
  FROM("long block u16", fills({255, 256, 300, 600, 65534, 66000, 70000}, R.thorough()), 0, 0, Cfg<uint16_t, 65536, 3, 0, 131072, 0>);
  FROM("wide u16", fills({300, 301, 700, 66000}, R.thorough()), 0, 0, Cfg<uint16_t, 1, 300>);
  FROM("many u32", fills({66000, 140000}, R.thorough()), 0, 0, Cfg<uint32_t, 64, 47, 0, 256, 768>);
#endif
}
}  // namespace mc
