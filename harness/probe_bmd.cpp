#include "probe.hpp"

#include <span>
#include <vector>
#include <sstream>
#include <memory_resource>

#include "common/diagnostics.hpp"

#include "bmd/html/bms_to_html.hpp"
#include "bmd/html/doc_to_html.hpp"
#include "bmd/html/html_writer.hpp"
#include "bmd/parsing/ast.hpp"
#include "bmd/parsing/parse.hpp"
#include "bmd/parsing/grammar.hpp"

#include "cli/glue.hpp"

using namespace bit_manipulation;

namespace probe {
namespace {

void pos_of(Json& j, const Local_Source_Span& p)
{
    j.open('[').unum(p.begin).unum(p.length).unum(p.line).unum(p.column).close(']');
}

void dump(Json& j, const bmd::ast::Some_Node* n)
{
    using namespace bmd::ast;
    if (n == nullptr) {
        j.null();
        return;
    }
    j.open('{').key("n").str(get_node_name(*n)).key("p");
    pos_of(j, get_source_span(*n));
    if (const auto* t = get_if<Text>(n)) {
        j.key("text").str(t->get_text());
    }
    if (const auto* l = get_if<List>(n)) {
        j.key("c").open('[');
        for (const Some_Node* c : l->get_children()) {
            dump(j, c);
        }
        j.close(']');
    }
    if (const auto* d = get_if<Directive>(n)) {
        j.key("id").str(d->get_identifier());
        j.key("args").open('{');
        for (const auto& [k, v] : d->m_arguments) {
            j.key(k).open('[');
            if (const auto* id = get_if<Identifier>(&v)) {
                j.str(id->get_value());
                pos_of(j, id->get_source_position());
            }
            else {
                j.num(get<Number>(v).get_value());
                pos_of(j, get<Number>(v).get_source_position());
            }
            j.close(']');
        }
        j.close('}');
        j.key("block");
        dump(j, d->get_block());
    }
    j.close('}');
}

/// Returns all memory at once, like a pool, but never keeps any for later.
struct Arena final : std::pmr::memory_resource {
    struct Block {
        void* p;
        std::size_t n, align;
    };
    std::pmr::memory_resource* upstream;
    std::vector<Block> blocks;

    explicit Arena(std::pmr::memory_resource* upstream)
        : upstream(upstream)
    {
    }
    ~Arena()
    {
        for (const Block& b : blocks) {
            upstream->deallocate(b.p, b.n, b.align);
        }
    }
    void* do_allocate(std::size_t n, std::size_t align) override
    {
        void* p = upstream->allocate(n, align);
        blocks.push_back({ p, n, align });
        return p;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t align) override
    {
        for (std::size_t i = blocks.size(); i-- > 0;) {
            if (blocks[i].p == p) {
                blocks[i] = blocks.back();
                blocks.pop_back();
                break;
            }
        }
        upstream->deallocate(p, n, align);
    }
    bool do_is_equal(const memory_resource& other) const noexcept override
    {
        return this == &other;
    }
};

} // namespace

void run_bmd(Json& j, std::string_view source, std::string_view flags, Tracking_Resource& memory)
{
    const auto has = [&](char c) { return flags.find(c) != std::string_view::npos; };
    const std::string_view file = "doc.bmd";
    // like the CLI: parsed documents live in a pool that is released as a whole
    std::pmr::unsynchronized_pool_resource real_pool(&memory);
    // libstdc++'s pool crashes when its upstream fails, so the failures come from a simpler one
    Arena arena(&memory);
    std::pmr::memory_resource& pool = memory.fail_after
        ? static_cast<std::pmr::memory_resource&>(arena)
        : real_pool;
    const Result<bmd::Parsed_Document, bmd::Parse_Error> parsed = bmd::parse(source, &pool);
    if (!parsed) {
        const auto& e = parsed.error();
        j.key("stage").str("parse").key("code").num(int(e.code));
        j.key("rule").str(bmd::grammar_rule_name(e.rule));
        j.key("pos").open('[').unum(e.pos.begin).unum(e.pos.line);
        j.unum(e.pos.column).close(']');
        if (has('d')) {
            std::ostringstream out, colored_out;
            print_parse_error(out, file, source, e, false);
            print_parse_error(colored_out, file, source, e, true);
            j.key("rendered").str(out.str());
            j.key("rendered_colored").str(colored_out.str());
        }
        return;
    }
    if (has('a')) {
        j.key("ast");
        dump(j, parsed->root_node);
    }
    if (has('p')) {
        std::ostringstream out, colored;
        const int width = number_flag(flags, ":w", 2);
        const int length = number_flag(flags, ":m", 30);
        print_ast(out, *parsed,
                  { .indent_width = width, .max_node_text_length = length, .colors = false });
        print_ast(colored, *parsed,
                  { .indent_width = width, .max_node_text_length = length, .colors = true });
        j.key("printed").str(out.str());
        j.key("printed_colored").str(colored.str());
    }
    if (has('h')) {
        std::ostringstream out;
        Simple_HTML_Consumer consumer { out };
        static constexpr std::string_view sheets[]
            = { "/css/a.css", "b c.css", "q=\"1\"&x.css", "<d>.css", "e.css", "", "/css/a.css" };
        const int indent = number_flag(flags, ":n", -1);
        const auto r = indent < 0
            ? write_html(consumer, *parsed, &pool)
            : bmd::doc_to_html(consumer, *parsed,
                               { .indent_width = Size(indent),
                                 .stylesheets = std::span<const std::string_view>(sheets).first(
                                     Size(number_flag(flags, ":y", 0))) },
                               &pool);
        if (!r) {
            const auto& e = r.error();
            j.key("stage").str("html").key("code").num(int(e.code));
            j.key("pos").open('[').unum(e.pos.begin).unum(e.pos.line).unum(e.pos.column).close(']');
            if (has('d')) {
                std::ostringstream out2, colored_out2;
                print_document_error(out2, file, source, e, false);
                print_document_error(colored_out2, file, source, e, true);
                j.key("rendered").str(out2.str());
                j.key("rendered_colored").str(colored_out2.str());
            }
            return;
        }
        j.key("html").str(out.str());
        if (has('H')) {
            std::ostringstream out2;
            Colored_HTML_Consumer colored { out2 };
            const auto r2 = write_html(colored, *parsed, &pool);
            j.key("colored_ok").boolean(bool(r2)).key("colored").str(out2.str());
        }
    }
    j.key("stage").str("ok");
}

// Highlights BMS code on its own; flag p: inside a paragraph.
void run_highlight(Json& j, std::string_view source, std::string_view flags,
                   Tracking_Resource& memory)
{
    const auto has = [&](char c) { return flags.find(c) != std::string_view::npos; };
    for (const bool colored : { false, true }) {
        std::pmr::unsynchronized_pool_resource pool(&memory);
        std::ostringstream out;
        Simple_HTML_Consumer simple { out };
        Colored_HTML_Consumer color { out };
        bmd::HTML_Token_Consumer& consumer
            = colored ? static_cast<bmd::HTML_Token_Consumer&>(color) : simple;
        bmd::HTML_Writer writer { consumer, 2 };
        const bmd::Tag_Properties pre { "pre", bmd::Formatting_Style::in_line };
        writer.write_preamble();
        if (has('p')) {
            writer.begin_tag(pre);
        }
        const auto r = bmd::bms_inline_code_to_html(writer, source, &pool);
        if (has('p')) {
            writer.end_tag(pre);
        }
        if (!colored) {
            j.key("stage").str(r ? "ok" : r.error().is_tokenize_error() ? "tokenize" : "parse");
        }
        j.key(colored ? "colored" : "html").str(out.str());
    }
}

} // namespace probe
