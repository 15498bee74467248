#pragma once
namespace takatori::scalar { class expression { public: virtual ~expression() = default; }; }
