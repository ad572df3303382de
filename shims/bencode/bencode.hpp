// Stand-in: only what general.hpp and its users need to be included; bencode itself is not installed here.
#pragma once
#include <string>
#include <string_view>
#include <stdexcept>
#include <map>
#include <vector>
#include <fmt/format.h>
namespace bencode { struct bvalue {}; }
