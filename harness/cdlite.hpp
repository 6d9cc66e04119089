// C headers of the library under test, for C++
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cinttypes>
#include <cmath>
#include <string>
extern "C" {
#define namespace namespace_
#define typename typename_
#define class class_
#define new new_
#define template template_
#define operator operator_
#define this this_
#define private private_
#include "config.h"
#include "dlite.h"
#include "dlite-macros.h"
#undef FAIL
#undef FAILCODE
#undef UNUSED
#undef namespace
#undef typename
#undef class
#undef new
#undef template
#undef operator
#undef this
#undef private
#undef alignof
#undef bool
}
