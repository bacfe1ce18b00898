// Analysed only: stands in for a header that is not installed here.
#pragma once
namespace takatori::plan { class step { public: virtual ~step() = default; }; class process : public step {}; }
