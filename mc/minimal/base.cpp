#include "common.hpp"
int main() {
  auto make = [](int i) { return i; }; auto get = [](const int& i) { return i; };
  copying<Seq<int>>(make, get); defaults<Seq<int>>(); equality<Seq<int>>(make); ordering<Seq<int>>(make);
}
