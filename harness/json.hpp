// Minimal JSON writer used by the probe; independent of the code under test.
#pragma once
#include <cstdint>
#include <cstdio>
#include <string>
#include <string_view>

namespace probe {

struct Json {
    std::string s;
    bool comma = false;

    void sep()
    {
        if (comma) {
            s += ',';
        }
        comma = true;
    }
    Json& open(char c)
    {
        sep();
        s += c;
        comma = false;
        return *this;
    }
    Json& close(char c)
    {
        s += c;
        comma = true;
        return *this;
    }
    void raw_string(std::string_view v)
    {
        s += '"';
        for (unsigned char c : v) {
            // bytes are mapped to code points 0..255 (latin-1), so that arbitrary bytes survive
            if (c == '"' || c == '\\') {
                s += '\\';
                s += char(c);
            }
            else if (c < 0x20 || c >= 0x7f) {
                char buf[8];
                std::snprintf(buf, sizeof buf, "\\u%04x", c);
                s += buf;
            }
            else {
                s += char(c);
            }
        }
        s += '"';
    }
    Json& key(std::string_view k)
    {
        sep();
        raw_string(k);
        s += ':';
        comma = false;
        return *this;
    }
    Json& str(std::string_view v)
    {
        sep();
        raw_string(v);
        return *this;
    }
    Json& num(long long v)
    {
        sep();
        s += std::to_string(v);
        return *this;
    }
    Json& unum(unsigned long long v)
    {
        sep();
        s += std::to_string(v);
        return *this;
    }
    Json& boolean(bool v)
    {
        sep();
        s += v ? "true" : "false";
        return *this;
    }
    Json& null()
    {
        sep();
        s += "null";
        return *this;
    }
    // 128-bit decimal, computed here and not by the code under test
    Json& big(__int128 v)
    {
        sep();
        if (v == 0) {
            s += '0';
            return *this;
        }
        unsigned __int128 u = v < 0 ? -(unsigned __int128)v : (unsigned __int128)v;
        std::string r;
        while (u != 0) {
            r.insert(r.begin(), char('0' + int(u % 10)));
            u /= 10;
        }
        if (v < 0) {
            r.insert(r.begin(), '-');
        }
        s += r;
        return *this;
    }
};

} // namespace probe
