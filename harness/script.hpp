// Scripts: one operation per line, tab-separated fields, %xx escapes.
#pragma once
#include <charconv>
#include <string>
#include <string_view>
#include <vector>

namespace probe {
namespace {

using Fields = std::vector<std::string>;

std::vector<Fields> read_script(std::string_view s)
{
    const auto nibble = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    std::vector<Fields> out;
    Fields f { "" };
    for (std::size_t i = 0; i < s.size(); ++i) {
        switch (s[i]) {
        case '\n':
            out.push_back(std::move(f));
            f = { "" };
            break;
        case '\t': f.push_back(""); break;
        case '%':
            f.back() += char(nibble(s[i + 1]) * 16 + nibble(s[i + 2]));
            i += 2;
            break;
        default: f.back() += s[i];
        }
    }
    return out;
}

std::size_t number(const std::string& s)
{
    std::size_t x = 0;
    std::from_chars(s.data(), s.data() + s.size(), x);
    return x;
}

} // namespace
} // namespace probe
