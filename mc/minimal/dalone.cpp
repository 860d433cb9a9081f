// alone
#include <boost/segmented_tree/seq.hpp>
int main() { boost::segmented_tree::seq<int> a; a.push_back(1); bool threw = false; try { a.at(1); } catch (...) { threw = true; } return threw && a.size() == 1 && a[0] == 1 ? 0 : 1; }
