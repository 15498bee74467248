#pragma once
#include <takatori/util/prelude.h>
namespace takatori::util {
struct clone_tag_t { explicit clone_tag_t() = default; };
inline constexpr clone_tag_t clone_tag {};
}
