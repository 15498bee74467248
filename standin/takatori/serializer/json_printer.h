#pragma once
#include <ostream>
#include "object_acceptor.h"
namespace takatori::serializer {
class json_printer : public object_acceptor {
public:
    json_printer(std::ostream& out) noexcept : o_(out) {}
    void string(std::string_view v) override { pre(); o_ << '"' << v << '"'; }
    void integer(std::int64_t v) override { pre(); o_ << v; }
    void unsigned_integer(std::uint64_t v) override { pre(); o_ << v; }
    void float_number(double v) override { pre(); o_ << v; }
    void boolean(bool v) override { pre(); o_ << (v ? "true" : "false"); }
    void pointer(void const*) override { pre(); o_ << "ptr"; }
    void struct_begin() override { pre(); o_ << '{'; first_ = true; }
    void struct_end() override { o_ << '}'; first_ = false; }
    void property_begin(std::string_view n) override { pre(); o_ << n << ':'; first_ = true; }
    void property_end() override { first_ = false; }
    void array_begin() override { pre(); o_ << '['; first_ = true; }
    void array_end() override { o_ << ']'; first_ = false; }
private:
    std::ostream& o_; bool first_ { true };
    void pre() { if (!first_) o_ << ','; first_ = false; }
};
}
