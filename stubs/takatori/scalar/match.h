// Analysed only.
#pragma once
namespace takatori::scalar { class match; }
