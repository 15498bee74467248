#pragma once
#include <takatori/util/prelude.h>
#include <sstream>
#include <string>
namespace takatori::util {
class string_builder {
public:
    struct to_string_t { explicit to_string_t() = default; };
    static constexpr to_string_t to_string {};
    template<class T> string_builder& operator<<(T&& v) & { o_ << std::forward<T>(v); return *this; }
    template<class T> string_builder&& operator<<(T&& v) && { o_ << std::forward<T>(v); return std::move(*this); }
    std::string operator<<(to_string_t) & { return o_.str(); }
    std::string operator<<(to_string_t) && { return o_.str(); }
    std::string str() const { return o_.str(); }
private:
    std::ostringstream o_ {};
};
}
