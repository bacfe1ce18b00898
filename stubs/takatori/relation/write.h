#pragma once
namespace takatori::relation { enum class write_kind { insert, update, delete_, insert_overwrite, insert_skip }; class write; }
