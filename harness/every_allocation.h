#pragma once
// Keeps the optimiser from removing or merging heap allocations, so that the symbolic and the native build of a
// harness have the same allocations and the schedule of one is a schedule of the other.
#include <bits/c++config.h>
#include <new>
#include <bits/functexcept.h>
#include <bits/move.h>
#pragma push_macro("__has_builtin")
#undef __has_builtin
#define __has_builtin(x) 0
#include <bits/new_allocator.h>
#pragma pop_macro("__has_builtin")
