// Analysed only: stands in for a header that is not installed here.
#pragma once
namespace takatori::statement { class statement { public: virtual ~statement() = default; }; }
