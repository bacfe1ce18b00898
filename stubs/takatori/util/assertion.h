// Analysed only: stands in for the header of the SDK, which is not installed here.
#pragma once
