// Analysed only.
#pragma once
namespace takatori::scalar { class function_call; }
