// Analysed only.
#pragma once
namespace takatori::scalar { class variable_reference; }
