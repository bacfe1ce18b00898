#pragma once
#include <takatori/descriptor/variable.h>
namespace yugawara::storage { class index; class column; class table; }
namespace yugawara::binding { class factory { public: template<class T> takatori::descriptor::variable operator()(T const&) const; template<class T> takatori::descriptor::variable table_column(T const&) const; }; }
