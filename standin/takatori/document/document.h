#pragma once
#include <takatori/util/prelude.h>
#include <cstddef>
#include <cstdint>
#include <string>
#include <string_view>
#include <ostream>
namespace takatori::document {
struct position { std::size_t line {}; std::size_t column {}; };
class document {
public:
    document() = default;
    virtual ~document() = default;
    document(document const&) = delete; document& operator=(document const&) = delete;
    document(document&&) = delete; document& operator=(document&&) = delete;
    virtual std::string_view location() const noexcept = 0;
    virtual std::string_view contents(std::size_t offset, std::size_t size) const = 0;
    virtual std::size_t size() const noexcept = 0;
};
}
