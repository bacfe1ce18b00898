// Analysed only: stands in for a header that is not installed here.
#pragma once
namespace takatori::descriptor { class element { public: virtual ~element() = default; }; }
