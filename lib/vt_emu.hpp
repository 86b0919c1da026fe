// The standard library without floating point <charconv> (libc++ before 20, libstdc++ before 11): the library uses its own conversion.
#pragma once
#include <version>
#include <charconv>
#undef __cpp_lib_to_chars
