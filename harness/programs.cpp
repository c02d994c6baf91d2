// Runs scripts on parsed and analyzed programs as values: they are made, moved, assigned, searched,
// run and destroyed, with memory from several resources.
#define PROBE_OUT
#include "probe.hpp"
#include "script.hpp"

#include <array>
#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <vector>

#include "bms/analysis_error.hpp"
#include "bms/analyze.hpp"
#include "bms/analyzed_program.hpp"
#include "bms/ast.hpp"
#include "bms/parsing/astp.hpp"
#include "bms/parsing/parse.hpp"
#include "bms/tokenization/token.hpp"
#include "bms/tokenization/tokenize.hpp"
#include "bms/vm/vm.hpp"

using namespace bit_manipulation;
using namespace bit_manipulation::bms;

namespace probe {
namespace {

__int128 big(const std::string& s)
{
    unsigned __int128 x = 0;
    for (char c : s) {
        if (c != '-') {
            x = x * 10 + unsigned(c - '0');
        }
    }
    return __int128(s[0] == '-' ? -x : x);
}

Concrete_Type type_of(const std::string& s)
{
    return s[0] == 'V' ? Concrete_Type::Void
        : s[0] == 'B'  ? Concrete_Type::Bool
        : s[0] == 'I'  ? Concrete_Type::Int
                       : Concrete_Type::Uint(int(number(s.substr(1))));
}

std::string name(Concrete_Type t)
{
    switch (t.type()) {
    case Type_Type::Void: return "V";
    case Type_Type::Bool: return "B";
    case Type_Type::Int: return "I";
    case Type_Type::Uint: return "U" + std::to_string(t.width());
    }
    return "broken";
}

struct Digest {
    unsigned long long x = 14695981039346656037ull;

    void add(std::string_view s)
    {
        for (unsigned char c : s) {
            x = (x ^ c) * 1099511628211ull;
        }
        x = (x ^ 256) * 1099511628211ull;
    }
    std::string text() const
    {
        return std::to_string(x);
    }
};

void digest(Digest& d, const Parsed_Program& p, astp::Handle h)
{
    if (h == astp::Handle::null) {
        d.add("null");
        return;
    }
    const astp::Some_Node& n = p.get_node(h);
    d.add(astp::get_node_name(n));
    const auto pos = astp::get_source_position(n);
    d.add(p.extract(pos));
    d.add(std::to_string(pos.begin));
    for (const astp::Handle c : astp::get_children(n)) {
        digest(d, p, c);
    }
    d.add("end");
}

void digest(Digest& d, const ast::Some_Node* n, const ast::Some_Node* parent)
{
    if (n == nullptr) {
        d.add("null");
        return;
    }
    d.add(ast::get_node_name(*n));
    if (const auto pos = ast::get_source_position(*n)) {
        d.add(std::to_string(pos->begin));
        d.add(pos->file_name);
    }
    d.add(ast::get_parent(*n) == parent ? "child" : "stray");
    visit(
        [&](const auto& x) {
            if constexpr (requires { x.get_children(); }) {
                for (const ast::Some_Node* c : x.get_children()) {
                    digest(d, c, n);
                }
            }
        },
        *n);
    d.add("end");
}

template <typename R>
const ast::Some_Node* show(Json& j, const R& r)
{
    if (!r) {
        j.str(r.error() == Introspection_Error_Code::nothing_found ? "nothing" : "wrong");
        return nullptr;
    }
    const ast::Some_Node& n = **r;
    const auto pos = ast::get_source_position(n);
    j.open('[').str(ast::get_node_name(n)).num(pos ? (long long)pos->begin : -1).close(']');
    return &n;
}

void call(Json& j, Analyzed_Program& program, const Fields& f)
{
    const auto found = program.find_global_function(f.at(2));
    if (!found) {
        j.str("no function");
        return;
    }
    if ((*found)->vm_address == ast::Function::invalid_vm_address) {
        j.str("no code");
        return;
    }
    Virtual_Machine& vm = program.get_vm();
    vm.reset();
    for (std::size_t k = 3; k + 1 < f.size(); k += 2) {
        vm.push({ type_of(f[k]), big(f[k + 1]) });
    }
    vm.jump_to((*found)->vm_address);
    for (int k = 0; k < 2'000'000; ++k) {
        const auto r = vm.cycle();
        if (r) {
            continue;
        }
        const Execution_Error& e = r.error();
        if (e.code != Execution_Error_Code::pop_call) {
            j.open('[').str(execution_error_code_name(e.code));
            e.code == Execution_Error_Code::evaluation ? j.str(evaluation_error_code_name(e.evaluation_error))
                                                       : j.null();
            j.close(']');
            return;
        }
        const std::size_t left = vm.stack_size();
        const Concrete_Value v = left == 0 ? Concrete_Value::Void : vm.pop();
        j.open('[').str(name(v.type)).big(v.int_value).unum(left).close(']');
        return;
    }
    j.str("long");
}

} // namespace

void run_out(Json& j, std::string_view source, Tracking_Resource& memory)
{
    const std::vector<Fields> script = read_script(source);
    std::array<Tracking_Resource, 3> own;
    const auto resource = [&](const std::string& s) -> std::pmr::memory_resource* {
        const std::size_t k = number(s);
        return k == 3 ? static_cast<std::pmr::memory_resource*>(&memory) : &own.at(k);
    };
    std::deque<std::string> texts, files;
    std::map<std::string, std::optional<Parsed_Program>> parsed;
    std::map<std::string, std::optional<Analyzed_Program>> analyzed;

    const auto counts = [&] {
        return std::array { own[0].total_allocs, own[1].total_allocs, own[2].total_allocs, memory.total_allocs };
    };

    j.key("ops").open('[');
    for (const Fields& f : script) {
        const std::string& op = f.at(0);
        const auto before = counts();
        // The resources that memory was taken from.
        const auto taken = [&] {
            std::string r;
            const auto now = counts();
            for (int k = 0; k < 4; ++k) {
                r += before[k] != now[k] ? std::to_string(k) : "";
            }
            j.str(r);
        };
        if (op == "S") {
            texts.push_back(f.at(1));
        }
        else if (op == "P") { // slot, resource, text
            const std::string& text = texts.at(number(f.at(3)));
            auto& slot = parsed[f.at(1)];
            slot.emplace(text, resource(f.at(2)));
            std::pmr::vector<Token> tokens { resource(f.at(2)) };
            const bool ok = tokenize(tokens, text) && parse(*slot, tokens);
            j.boolean(ok);
            if (!ok) {
                slot.reset();
            }
            taken();
        }
        else if (op == "A") { // slot, resource, parsed, file
            files.push_back(f.at(4));
            analyzed[f.at(1)].emplace(parsed.at(f.at(3)).value(), files.back(), resource(f.at(2)));
            taken();
        }
        else if (op == "R") { // slot, parsed, resource
            const auto r = analyze(analyzed.at(f.at(1)).value(), parsed.at(f.at(2)).value(), resource(f.at(3)));
            r ? j.null() : j.str(analysis_error_code_name(r.error().code()));
            taken();
        }
        else if (op == "MP") {
            parsed.at(f.at(1)).value() = std::move(parsed.at(f.at(2)).value());
        }
        else if (op == "MA") {
            analyzed.at(f.at(1)).value() = std::move(analyzed.at(f.at(2)).value());
        }
        else if (op == "NP") {
            parsed[f.at(1)].emplace(std::move(parsed.at(f.at(2)).value()));
        }
        else if (op == "NA") {
            analyzed[f.at(1)].emplace(std::move(analyzed.at(f.at(2)).value()));
        }
        else if (op == "DP") {
            parsed.at(f.at(1)).reset();
        }
        else if (op == "DA") {
            analyzed.at(f.at(1)).reset();
        }
        else if (op == "TP") {
            const Parsed_Program& p = parsed.at(f.at(1)).value();
            Digest d;
            digest(d, p, p.get_root_handle());
            d.add(std::to_string(p.get_node_count()));
            j.open('[').str(p.get_source()).str(d.text()).close(']');
        }
        else if (op == "TA") {
            const Analyzed_Program& p = analyzed.at(f.at(1)).value();
            Digest d;
            digest(d, p.get_root(), nullptr);
            j.open('[').str(p.get_source()).str(p.get_file_name()).str(d.text()).close(']');
        }
        else if (op == "F") { // slot, name
            const Analyzed_Program& p = analyzed.at(f.at(1)).value();
            j.open('[');
            show(j, p.find_entity(f.at(2)));
            const auto* fun = show(j, p.find_global_function_node(f.at(2)));
            const auto* con = show(j, p.find_global_constant_node(f.at(2)));
            const auto typed_fun = p.find_global_function(f.at(2));
            const auto typed_con = p.find_global_constant(f.at(2));
            const auto same = [](auto& typed, auto& nodes, const ast::Some_Node* node, auto* as) {
                return typed ? node != nullptr && as == *typed
                             : node == nullptr && typed.error() == nodes.error();
            };
            const auto fun_nodes = p.find_global_function_node(f.at(2));
            const auto con_nodes = p.find_global_constant_node(f.at(2));
            j.boolean(same(typed_fun, fun_nodes, fun, fun ? get_if<ast::Function>(fun) : nullptr)
                      && same(typed_con, con_nodes, con, con ? get_if<ast::Const>(con) : nullptr));
            j.close(']');
        }
        else if (op == "X") { // slot, function, arguments
            call(j, analyzed.at(f.at(1)).value(), f);
        }
        else {
            throw std::runtime_error("no operation " + op);
        }
    }
    j.close(']');
    parsed.clear();
    analyzed.clear();
    j.key("memory").open('[');
    for (Tracking_Resource& m : own) {
        j.unum(m.live_bytes).unum(m.mismatches).unum(m.total_allocs);
        m.drop_all();
    }
    j.close(']');
}

} // namespace probe

#include "probe_main.cpp"
