#pragma once
namespace yugawara::storage { class column; }
