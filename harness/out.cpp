// Runs scripts of calls against the classes that build output: HTML_Writer and Code_String.
#define PROBE_OUT
#include "probe.hpp"
#include "script.hpp"

#include <charconv>
#include <memory_resource>
#include <vector>

#include "bmd/codegen/code_span_type.hpp"
#include "bmd/codegen/code_string.hpp"
#include "bmd/html/html_writer.hpp"
#include "bmd/html/token_consumer.hpp"
#include "common/assert.hpp"
#include "common/source_position.hpp"

using namespace bit_manipulation;

namespace probe {
namespace {

struct Recorder final : bmd::HTML_Token_Consumer {
    std::vector<std::pair<int, std::string>> tokens;
    bool write(char c, bmd::HTML_Token_Type t) override
    {
        tokens.emplace_back(int(t), std::string(1, c));
        return true;
    }
    bool write(char c, Size n, bmd::HTML_Token_Type t) override
    {
        tokens.emplace_back(int(t), std::string(n, c));
        return true;
    }
    bool write(std::string_view s, bmd::HTML_Token_Type t) override
    {
        tokens.emplace_back(int(t), std::string(s));
        return true;
    }
};

bmd::Formatting_Style style(const std::string& s)
{
    return s == "pre"    ? bmd::Formatting_Style::pre
        : s == "in_line" ? bmd::Formatting_Style::in_line
        : s == "flat"    ? bmd::Formatting_Style::flat
                         : bmd::Formatting_Style::block;
}

Local_Source_Span span(const Fields& f, std::size_t i)
{
    Local_Source_Span s {};
    s.line = number(f[i]);
    s.column = number(f[i + 1]);
    s.begin = number(f[i + 2]);
    s.length = number(f[i + 3]);
    return s;
}

void run_html(Json& j, const std::vector<Fields>& script)
{
    Recorder out;
    bmd::HTML_Writer w(out, number(script.at(0).at(1)));
    std::vector<long> results;
    std::vector<std::size_t> ends;
    long refused = -1;
    for (std::size_t i = 1; i < script.size(); ++i) {
        const Fields& f = script[i];
        const char op = f[0][0];
        long r = 0;
        try {
            switch (op) {
            case 'P': w.write_preamble(); break;
            case 'E': w.write_empty_tag({ f.at(1), style(f.at(2)) }); break;
            case 'C': w.write_comment_tag(f.at(1), style(f.at(2))); break;
            case 'B': w.begin_tag({ f.at(1), style(f.at(2)) }); break;
            case 'Z': w.end_tag({ f.at(1), style(f.at(2)) }); break;
            case 'T': r = long(w.write_inner_text(f.at(1), style(f.at(2)))); break;
            case 'W': w.write_whitespace(f.at(1).at(0), number(f.at(2))); break;
            case 'G': w.write_source_gap(span(f, 1), span(f, 5), style(f.at(9))); break;
            case 'A': {
                auto a = w.begin_tag_with_attributes({ f.at(1), style(f.at(2)) });
                for (std::size_t k = 4; k + 1 < f.size(); k += 2) {
                    if (f[k + 1].empty()) {
                        a.write_attribute(f[k]);
                    }
                    else {
                        a.write_attribute(f[k], f[k + 1]);
                    }
                }
                if (f.at(3) == "end") {
                    a.end();
                }
                else if (f.at(3) == "empty") {
                    a.end_empty();
                }
                break;
            }
            }
        } catch (const Assertion_Error&) {
            refused = long(i);
            break;
        }
        results.push_back(r * 2 + w.is_done());
        ends.push_back(out.tokens.size());
    }
    j.key("ends").open('[');
    for (std::size_t e : ends) {
        j.num(long(e));
    }
    j.close(']');
    j.key("refused").num(refused);
    j.key("results").open('[');
    for (long r : results) {
        j.num(r);
    }
    j.close(']').key("tokens").open('[');
    for (const auto& [t, s] : out.tokens) {
        j.open('[').num(t).str(s).close(']');
    }
    j.close(']');
}

bool same(bmd::Code_String_Span a, bmd::Code_String_Span b)
{
    return a.begin == b.begin && a.length == b.length && a.type == b.type;
}

/// Walks the spans in every way the iterators offer; returns what disagrees with the plain walk.
std::string walk(const bmd::Code_String& s, std::vector<bmd::Code_String_Span>& out)
{
    for (bmd::Code_String_Span x : s) {
        out.push_back(x);
    }
    const auto n = Difference(out.size());
    if (s.end() - s.begin() != n || s.cend() - s.cbegin() != n) {
        return "distance";
    }
    auto it = s.end();
    for (Difference k = n; k-- > 0;) {
        if (k % 2 == 0) {
            --it;
        }
        else {
            auto before = it--;
            if (before - it != 1 || !(it < before) || it == before) {
                return "it--";
            }
        }
        if (!same(*it, out[std::size_t(k)]) || !same(s.begin()[k], *it)) {
            return "backwards";
        }
    }
    if (it != s.begin()) {
        return "begin";
    }
    for (Difference k = 0; k < n; ++k) {
        auto a = s.begin() + k, b = s.end() - (n - k), c = k + s.cbegin();
        if (a != b || a != c || a - s.begin() != k || (a <=> s.begin()) != (k <=> 0)) {
            return "random access";
        }
        auto d = a++;
        if (!same(*d, out[std::size_t(k)]) || a - d != 1 || !(a > d)) {
            return "it++";
        }
        a -= k + 1;
        b += n - k;
        if (a != s.begin() || b != s.end()) {
            return "offsets";
        }
    }
    int refused = 0;
    try {
        auto b = s.begin();
        --b;
    } catch (const Assertion_Error&) {
        ++refused;
    }
    try {
        auto b = s.begin();
        b -= 1;
    } catch (const Assertion_Error&) {
        ++refused;
    }
    return refused == 2 ? "" : "before the beginning";
}

void run_code(Json& j, const std::vector<Fields>& script, Tracking_Resource& memory)
{
    bmd::Code_String s(&memory);
    std::vector<bmd::Code_String::Length> marks;
    long refused = -1;
    std::string problem;
    for (std::size_t i = 1; i < script.size() && problem.empty(); ++i) {
        const Fields& f = script[i];
        const auto type = [&](std::size_t k) { return bmd::Code_Span_Type(number(f.at(k))); };
        try {
            switch (f[0][0]) {
            case 'a': s.append(f.at(1)); break;
            case 'c': s.append(f.at(1).at(0)); break;
            case 'n': s.append(number(f.at(1)), f.at(2).at(0)); break;
            case 's': s.append(f.at(1), type(2)); break;
            case 'q': s.append(f.at(1).at(0), type(2)); break;
            case 'L': marks.push_back(s.get_length()); break;
            case 'R': s.resize(marks.at(number(f.at(1)))); break;
            case 'Y': {
                bmd::Code_String copy = s;
                s.append('!', bmd::Code_Span_Type(0));
                s = std::move(copy);
                break;
            }
            }
        } catch (const Assertion_Error&) {
            refused = long(i);
            break;
        }
        if (s.get_length().text_length != s.get_text().size()
            || s.get_text_length() != s.get_text().size()
            || Difference(s.get_length().span_count) != s.end() - s.begin()) {
            problem = "length";
        }
    }
    std::vector<bmd::Code_String_Span> spans;
    if (problem.empty()) {
        problem = walk(s, spans);
    }
    j.key("refused").num(refused).key("wrong").str(problem).key("text").str(s.get_text());
    j.key("spans").open('[');
    for (const auto& x : spans) {
        j.open('[').unum(x.begin).unum(x.length).num(int(x.type)).close(']');
    }
    j.close(']');
}

} // namespace

void run_out(Json& j, std::string_view source, Tracking_Resource& memory)
{
    const std::vector<Fields> script = read_script(source);
    if (script.at(0).at(0) == "html") {
        run_html(j, script);
    }
    else {
        run_code(j, script, memory);
    }
}

} // namespace probe

#include "probe_main.cpp"
