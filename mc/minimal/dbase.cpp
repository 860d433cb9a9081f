// Fails only where everything does.
#include <array>
#include <cstdint>
#include <stdexcept>
#include "dropin.hpp"
int main() { C<int> a; a.push_back(1); a.push_back(2); CHECK(a.size() == 2 && a[0] == 1 && a[1] == 2); }
