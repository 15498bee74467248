#pragma once
#include <takatori/util/prelude.h>
#include <exception>
#include <stdexcept>
#include <string>
#include <utility>
namespace takatori::util {
template<class T> [[noreturn]] inline void throw_exception(T const& e) { throw e; }
}
