// Compiles iff the library's headers can be used at all: tells a broken tree from a broken grammar.
#include "pch.hpp"
int control() { return static_cast<int>("ab"_all.parse("abc").remaining().size()); }
