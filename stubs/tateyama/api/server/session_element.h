// Analysed only: stands in for a header that is not installed here.
#pragma once
namespace tateyama::api::server {
class session_element {
public:
    session_element() = default;
    virtual ~session_element() = default;
    virtual void dispose() = 0;
};
}
