#pragma once
#include <takatori/util/prelude.h>
namespace takatori::util {
template<class T> struct meta_type { using type = T; };
template<class T> inline constexpr meta_type<T> meta_type_v {};
}
