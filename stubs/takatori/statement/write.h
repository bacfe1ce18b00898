#pragma once
#include "statement.h"
namespace takatori::statement { class write; }
