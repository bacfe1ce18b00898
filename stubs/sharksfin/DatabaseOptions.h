// Analysed only: stands in for the header of the storage engine, which is not installed here.
#pragma once
#include <optional>
#include <string>
#include <string_view>
namespace sharksfin {
class DatabaseOptions {
public:
    enum class OpenMode { RESTORE, CREATE_OR_RESTORE };
    std::optional<std::string> attribute(std::string_view key) const;
    DatabaseOptions& attribute(std::string_view key, std::string_view value);
    OpenMode open_mode() const;
    DatabaseOptions& open_mode(OpenMode mode);
};
}
