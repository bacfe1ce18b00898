// Analysed only: stands in for the header of the storage engine, which is not installed here.
#pragma once
namespace sharksfin {
class Environment {
public:
    void initialize();
};
}
