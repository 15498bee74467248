#pragma once
#include "expression.h"
#include <memory>
#include <takatori/type/data.h>
#include <takatori/value/data.h>
namespace takatori::scalar {
class immediate : public expression {
public:
    immediate(std::shared_ptr<value::data const> v, std::shared_ptr<type::data const> t) : v_(std::move(v)), t_(std::move(t)) {}
    std::shared_ptr<value::data const> const& shared_value() const { return v_; }
    std::shared_ptr<type::data const> const& shared_type() const { return t_; }
private: std::shared_ptr<value::data const> v_; std::shared_ptr<type::data const> t_;
}; }
