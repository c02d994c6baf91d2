#pragma once
#include "json.hpp"
#include "tracking.hpp"
#include <cstdlib>
#include <string>
#include <string_view>

namespace probe {
// `source` is an exact-size heap copy, so that ASan sees any read past its end.
void run_bms(Json& j, std::string_view source, std::string_view flags, Tracking_Resource& memory);
void run_bmd(Json& j, std::string_view source, std::string_view flags, Tracking_Resource& memory);
void run_highlight(Json& j, std::string_view source, std::string_view flags, Tracking_Resource& memory);
void run_num(Json& j, std::string_view source, Tracking_Resource& memory);
void run_out(Json& j, std::string_view source, Tracking_Resource& memory);

/// The number behind `name` in the flags, or `otherwise`.
inline int number_flag(std::string_view flags, std::string_view name, int otherwise)
{
    const auto i = flags.find(name);
    return i == std::string_view::npos ? otherwise : std::atoi(std::string(flags.substr(i + name.size())).c_str());
}
} // namespace probe
