#pragma once
#include <stdexcept>
#include "document.h"
namespace takatori::document {
class basic_document : public document {
public:
    basic_document(std::string location, std::string contents) noexcept : location_(std::move(location)), contents_(std::move(contents)) {}
    explicit basic_document(std::string contents) noexcept : contents_(std::move(contents)) {}
    std::string_view location() const noexcept override { return location_; }
    std::string_view contents(std::size_t offset, std::size_t size) const override {
        if (offset > contents_.size() || size > contents_.size() - offset) throw std::out_of_range("document::contents()");
        return std::string_view(contents_).substr(offset, size);
    }
    std::size_t size() const noexcept override { return contents_.size(); }
private:
    std::string location_ {}; std::string contents_;
};
}
