#pragma once
#include <memory>
#include <ostream>
namespace takatori::type { class data { public: virtual ~data() = default; virtual data* clone() const& = 0; virtual data* clone() && = 0; virtual void print(std::ostream&) const {} friend std::ostream& operator<<(std::ostream& o, data const& d) { d.print(o); return o; } }; }
