#pragma once
#include <k3/tok3n.h>
#include <k3/tok3n/detail/parsers/anything.h>
#include "vf.hpp"
using namespace k3::tok3n;
