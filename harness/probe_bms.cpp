#include "probe.hpp"

#include <sstream>
#include <vector>

#include "common/diagnostics.hpp"
#include "common/parse.hpp"
#include "common/to_string.hpp"

#include "bms/analysis_error.hpp"
#include "bms/analyze.hpp"
#include "bms/analyzed_program.hpp"
#include "bms/ast.hpp"
#include "bms/instantiate.hpp"
#include "bms/parsing/astp.hpp"
#include "bms/parsing/grammar.hpp"
#include "bms/parsing/parse.hpp"
#include "bms/tokenization/token.hpp"
#include "bms/tokenization/tokenize.hpp"
#include "bms/tokenization/tokenize_error.hpp"

#include "bmd/codegen/code_language.hpp"
#include "bmd/codegen/code_string.hpp"
#include "bmd/codegen/codegen.hpp"

#include "cli/glue.hpp"

using namespace bit_manipulation;

namespace probe {
namespace {

void pos_of(Json& j, const Local_Source_Span& p)
{
    j.open('[').unum(p.begin).unum(p.length).unum(p.line).unum(p.column).close(']');
}

void position(Json& j, const std::optional<Source_Position>& p)
{
    if (!p) {
        j.null();
        return;
    }
    j.open('[').unum(p->begin).unum(p->line).unum(p->column).close(']');
}

void type_of(Json& j, const bms::Concrete_Type& t)
{
    switch (t.type()) {
    case bms::Type_Type::Void: j.str("Void"); break;
    case bms::Type_Type::Bool: j.str("Bool"); break;
    case bms::Type_Type::Int: j.str("Int"); break;
    case bms::Type_Type::Uint: j.str("Uint(" + std::to_string(t.width()) + ")"); break;
    }
}

void value_of(Json& j, const bms::Value& v)
{
    j.open('[');
    type_of(j, v.get_type());
    if (v.is_known()) {
        const bms::Concrete_Value c = v.concrete_value();
        if (v.get_type().is_uint()) {
            // the bits, as an unsigned number
            Json t;
            const unsigned __int128 u = static_cast<unsigned __int128>(c.int_value);
            if (u >> 127) {
                // print high/low separately to stay within the signed printer
                std::string r;
                unsigned __int128 x = u;
                while (x != 0) {
                    r.insert(r.begin(), char('0' + int(x % 10)));
                    x /= 10;
                }
                j.sep();
                j.s += r;
            }
            else {
                j.big(c.int_value);
            }
        }
        else {
            j.big(c.int_value);
        }
    }
    else {
        j.null();
    }
    j.close(']');
}

void dump_astp(Json& j, const bms::Parsed_Program& p, bms::astp::Handle h)
{
    using namespace bms::astp;
    if (h == Handle::null) {
        j.null();
        return;
    }
    const Some_Node& n = p.get_node(h);
    j.open('{').key("n").str(get_node_name(n)).key("p");
    pos_of(j, get_source_position(n));
    visit(
        [&]<typename T>(const T& x) {
            if constexpr (requires { x.name; }) {
                j.key("name").str(x.name);
            }
            if constexpr (requires { x.function; }) {
                j.key("name").str(x.function);
                j.key("stmt").boolean(x.is_statement);
            }
            if constexpr (requires { x.identifier; }) {
                j.key("name").str(x.identifier);
            }
            if constexpr (requires { x.literal; }) {
                j.key("name").str(x.literal);
            }
            if constexpr (requires { x.op; }) {
                j.key("op").str(bms::token_type_name(x.op));
            }
            if constexpr (std::is_same_v<T, Type>) {
                j.key("type").str(bms::type_type_name(x.type));
            }
            if constexpr (std::is_same_v<T, Literal>) {
                j.key("type").str(bms::token_type_name(x.type));
            }
            if constexpr (std::is_same_v<T, Annotation_Argument>) {
                j.key("key").str(x.key).key("value").str(x.value);
                j.key("type").str(bms::token_type_name(x.value_type));
            }
        },
        n);
    j.key("c").open('[');
    for (Handle c : get_children(n)) {
        dump_astp(j, p, c);
    }
    j.close(']').close('}');
}

struct Expr_Dumper {
    Json& j;
    std::string_view function;

    void node(const bms::ast::Some_Node* n)
    {
        using namespace bms;
        if (n == nullptr) {
            return;
        }
        if (const auto* f = get_if<ast::Function>(n)) {
            if (f->is_generic) {
                for (const auto& i : f->instances) {
                    node(i.handle);
                }
                return;
            }
            function = f->get_name();
            node(f->get_requires_clause_node());
            node(f->get_body_node());
            function = "";
            return;
        }
        if (ast::is_expression(*n) || holds_alternative<ast::Let>(*n)
            || holds_alternative<ast::Const>(*n)) {
            const auto pos = ast::get_source_position(*n);
            const auto& v = ast::get_const_value(*n);
            j.open('[').str(ast::get_node_name(*n));
            if (pos) {
                j.unum(pos->begin).unum(pos->length);
            }
            else {
                j.null().null();
            }
            if (v) {
                value_of(j, *v);
            }
            else {
                j.null();
            }
            j.close(']');
        }
        for (const ast::Some_Node* c : ast::get_children(*n)) {
            node(c);
        }
    }
};

bmd::Code_Language language_of(char letter)
{
    using enum bmd::Code_Language;
    switch (letter) {
    case 'b': return bms;
    case 'c': return c;
    case 'p': return cpp;
    case 'r': return rust;
    case 'j': return java;
    case 'k': return kotlin;
    case 's': return javascript;
    default: return typescript;
    }
}

void generate(Json& j, const bms::Analyzed_Program& a, char lang, unsigned opts, Tracking_Resource& m)
{
    bmd::Code_Options options {};
    options.c_23 = opts & 1;
    options.c_prefer_bitint = (opts & 1) && !(opts & 16);
    options.always_parenthesize_subexpressions = opts & 2;
    if (opts & 4) {
        options.brace_style = bmd::Brace_Style::allman;
        options.break_after_function = true;
        options.break_after_if = true;
    }
    if (opts & 8) {
        options.indent_char = '\t';
        options.indent_size = 1;
    }
    bmd::Code_String out { &m };
    auto r = bmd::generate_code(out, a, language_of(lang), options);
    j.open('{');
    j.key("ok").boolean(bool(r));
    if (!r) {
        j.key("code").num(int(r.error().code));
    }
    const std::string_view text = out.get_text();
    j.key("text").str(text);
    j.key("spans").open('[');
    for (const auto& span : out) {
        j.open('[').unum(span.begin).unum(span.length).num(int(span.type)).close(']');
    }
    j.close(']');
    std::ostringstream colored;
    print_code_string(colored, out, true);
    j.key("colored").str(colored.str());
    std::ostringstream plain;
    print_code_string(plain, out, false);
    j.key("plain_same").boolean(plain.str() == text);
    j.close('}');
}

/// Generates code once for each `lang,bits,style,size,char,function,if;` in the specification.
/// With a style from 1 to 3, everything about the layout but the brace style is left at its default.
void generate_all(Json& j,
                  const bms::Analyzed_Program& a,
                  std::string_view specs,
                  Tracking_Resource& m)
{
    j.open('[');
    while (!specs.empty() && specs.front() != ':') {
        const char lang = specs.front();
        specs.remove_prefix(1);
        unsigned v[6] {};
        for (unsigned& x : v) {
            specs.remove_prefix(1);
            while (!specs.empty() && specs.front() >= '0' && specs.front() <= '9') {
                x = x * 10 + unsigned(specs.front() - '0');
                specs.remove_prefix(1);
            }
        }
        specs.remove_prefix(1);
        const bmd::Brace_Style styles[]
            = { bmd::Brace_Style::k_and_r, bmd::Brace_Style::allman, bmd::Brace_Style::k_and_r,
                bmd::Brace_Style::stroustrup };
        bmd::Code_Options options { .brace_style = styles[v[1] & 3],
                                    .always_parenthesize_subexpressions = bool(v[0] & 2),
                                    .c_23 = bool(v[0] & 1) };
        if (v[0] & 4) {
            options.c_prefer_bitint = v[0] & 8;
        }
        if (v[1] == 0 || v[1] > 3) {
            options.indent_size = v[2];
            options.indent_char = char(v[3]);
            options.break_after_function = v[4];
            options.break_after_if = v[5];
        }
        bmd::Code_String out { &m };
        auto r = bmd::generate_code(out, a, language_of(lang), options);
        j.open('{');
        j.key("ok").boolean(bool(r));
        if (!r) {
            j.key("code").num(int(r.error().code));
        }
        j.key("text").str(out.get_text());
        j.key("kinds").open('[');
        for (const auto& span : out) {
            j.open('[').unum(span.begin).unum(span.length).num(int(span.type)).close(']');
        }
        j.close(']');
        j.close('}');
    }
    j.close(']');
}

std::string_view fail_construct_name(bms::Construct c)
{
    static constexpr std::string_view names[]
        = { "program",     "function",        "type",
            "parameter",   "constant",        "variable",
            "static_assertion", "if_statement", "while_statement" };
    const auto i = std::size_t(c);
    return i < std::size(names) ? names[i] : std::string_view("other");
}

} // namespace

void run_bms(Json& j, std::string_view source, std::string_view flags, Tracking_Resource& memory)
{
    const auto has = [&](char c) {
        const auto end = flags.find(':');
        return flags.substr(0, end).find(c) != std::string_view::npos;
    };
    const bool render = has('d');
    const std::string_view file = "prog.bms";

    std::pmr::vector<bms::Token> tokens(&memory);
    const Result<void, bms::Tokenize_Error> tr = bms::tokenize(tokens, source);
    if (has('t')) {
        j.key("tokens").open('[');
        for (const bms::Token& t : tokens) {
            j.open('[').str(bms::token_type_name(t.type)).unum(t.pos.begin).unum(t.pos.length);
            j.unum(t.pos.line).unum(t.pos.column).close(']');
        }
        j.close(']');
        std::ostringstream out;
        print_tokens(out, tokens, source);
        j.key("printed_tokens").str(out.str());
    }
    if (!tr) {
        const auto& e = tr.error();
        j.key("stage").str("tokenize");
        j.key("code").str(bms::name_of(e.code));
        j.key("pos").open('[').unum(e.pos.begin).unum(e.pos.line).unum(e.pos.column).close(']');
        if (render) {
            std::ostringstream out, colored_out;
            print_tokenize_error(out, file, source, e, false);
            print_tokenize_error(colored_out, file, source, e, true);
            j.key("rendered").str(out.str());
            j.key("rendered_colored").str(colored_out.str());
        }
        return;
    }

    if (has('T')) { // tokenize only
        j.key("stage").str("tokenized");
        return;
    }

    bms::Parsed_Program parsed(source, &memory);
    const Result<void, bms::Parse_Error> pr = bms::parse(parsed, tokens);
    if (!pr) {
        const auto& e = pr.error();
        j.key("stage").str("parse");
        j.key("code").str(bms::grammar_rule_name(e.fail_rule));
        j.key("token").str(bms::token_type_name(e.fail_token.type));
        j.key("pos").open('[').unum(e.fail_token.pos.begin).unum(e.fail_token.pos.line);
        j.unum(e.fail_token.pos.column).close(']');
        j.key("expected").open('[');
        for (auto t : e.expected_tokens) {
            j.str(bms::token_type_name(t));
        }
        j.close(']');
        if (render) {
            std::ostringstream out, colored_out;
            print_parse_error(out, file, source, e, false);
            print_parse_error(colored_out, file, source, e, true);
            j.key("rendered").str(out.str());
            j.key("rendered_colored").str(colored_out.str());
        }
        return;
    }
    if (has('a')) {
        j.key("ast");
        dump_astp(j, parsed, parsed.get_root_handle());
    }
    if (has('p')) {
        std::ostringstream out, colored;
        const int width = number_flag(flags, ":w", 2);
        print_ast(out, parsed, { .indent_width = width, .colors = false });
        print_ast(colored, parsed, { .indent_width = width, .colors = true });
        j.key("printed").str(out.str());
        j.key("printed_colored").str(colored.str());
    }
    if (has('P')) { // parse only
        j.key("stage").str("parsed");
        return;
    }

    bms::Analyzed_Program analyzed(parsed, file, &memory);
    Result<void, bms::Analysis_Error> ar = bms::analyze(analyzed, parsed, &memory);
    if (ar) {
        if (const auto i = flags.find(":i"); i != std::string_view::npos) {
            const int w = std::atoi(std::string(flags.substr(i + 2)).c_str());
            ar = bms::instantiate_all(analyzed, &memory, bms::Widths { w });
            if (ar) {
                ar = bms::analyze_semantics(analyzed, &memory);
            }
        }
    }
    if (!ar) {
        const auto& e = ar.error();
        j.key("stage").str("analyze");
        j.key("code").str(bms::analysis_error_code_name(e.code()));
        if (e.code() == bms::Analysis_Error_Code::evaluation_error) {
            j.key("detail").str(bms::evaluation_error_code_name(e.evaluation_error()));
        }
        if (e.code() == bms::Analysis_Error_Code::execution_error) {
            j.key("detail").str(bms::execution_error_code_name(e.execution_error()));
        }
        j.key("pos");
        position(j, e.fail_pos());
        j.key("construct").str(fail_construct_name(e.fail_construct()));
        j.key("cause");
        position(j, e.cause_pos());
        if (const auto c = e.comparison_failure()) {
            j.key("cmp").open('[');
            value_of(j, c->left);
            value_of(j, c->right);
            j.close(']');
        }
        if (render) {
            std::ostringstream out, colored_out;
            print_analysis_error(out, parsed, e, false);
            print_analysis_error(colored_out, parsed, e, true);
            j.key("rendered").str(out.str());
            j.key("rendered_colored").str(colored_out.str());
        }
        return;
    }
    j.key("stage").str("ok");
    if (has('v')) {
        j.key("consts").open('{');
        for (const auto* n : bms::ast::get_children(*analyzed.get_root())) {
            if (n == nullptr) {
                continue;
            }
            if (const auto* c = get_if<bms::ast::Const>(n)) {
                j.key(c->get_name());
                const auto found = analyzed.find_global_constant(c->get_name());
                if (!found || *found != c || !c->const_value()) {
                    j.str("lookup-failed");
                }
                else {
                    value_of(j, *c->const_value());
                }
            }
        }
        j.close('}');
    }
    if (has('e')) {
        j.key("exprs").open('[');
        Expr_Dumper d { j, "" };
        d.node(analyzed.get_root());
        j.close(']');
    }
    if (const auto g = flags.find(":G"); g != std::string_view::npos) {
        j.key("gens");
        generate_all(j, analyzed, flags.substr(g + 2), memory);
    }
    if (const auto g = flags.find(":g"); g != std::string_view::npos) {
        // :gLO  language letter, option digit
        j.key("gen");
        generate(j, analyzed, flags[g + 2], unsigned(flags[g + 3] - '0'), memory);
    }
}

void run_num(Json& j, std::string_view source, Tracking_Resource&)
{
    // each line is a literal; reports what the literal parsers and printers make of it
    j.key("rows").open('[');
    while (!source.empty()) {
        const auto eol = source.find('\n');
        const std::string_view line = source.substr(0, eol);
        source = eol == std::string_view::npos ? "" : source.substr(eol + 1);
        const std::string exact(line);
        const auto u = parse_uinteger_literal(exact);
        const auto i = parse_integer_literal(exact);
        j.open('[');
        if (u) {
            // two 64-bit halves
            j.unum((unsigned long long)(*u >> 64)).unum((unsigned long long)*u);
            j.str(to_string(*u));
        }
        else {
            j.null().null().null();
        }
        if (i) {
            j.big(*i);
            j.str(to_string(*i));
        }
        else {
            j.null().null();
        }
        j.close(']');
    }
    j.close(']');
}

} // namespace probe
