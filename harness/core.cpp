// Runs scripts against the virtual machine, the operations and the nested maps directly.
#define PROBE_OUT
#include "probe.hpp"
#include "script.hpp"

#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>

#include "bms/ast.hpp"
#include "bms/evaluation/builtin_function.hpp"
#include "bms/evaluation/operations.hpp"
#include "bms/symbol_table.hpp"
#include "bms/value.hpp"
#include "bms/vm/linear_map_stack.hpp"
#include "bms/vm/vm.hpp"
#include "common/assert.hpp"
#include "common/tribool.hpp"

using namespace bit_manipulation;
using namespace bit_manipulation::bms;

namespace probe {
namespace {

long long signed_number(const std::string& s)
{
    return s[0] == '-' ? -(long long)number(s.substr(1)) : (long long)number(s);
}

__int128 big(const std::string& s)
{
    unsigned __int128 x = 0;
    for (char c : s) {
        if (c != '-') {
            x = x * 10 + unsigned(c - '0');
        }
    }
    return __int128(s[0] == '-' ? -x : x);
}

Concrete_Type type_of(const std::string& s)
{
    return s[0] == 'V' ? Concrete_Type::Void
        : s[0] == 'B'  ? Concrete_Type::Bool
        : s[0] == 'I'  ? Concrete_Type::Int
                       : Concrete_Type::Uint(int(number(s.substr(1))));
}

Concrete_Value value_of(const std::string& type, const std::string& v)
{
    return { type_of(type), big(v) };
}

// "?" as value: unknown.
Value abstract_of(const std::string& type, const std::string& v)
{
    return v == "?" ? Value::unknown_of_type(type_of(type)) : Value { value_of(type, v) };
}

std::string name(Concrete_Type t)
{
    switch (t.type()) {
    case Type_Type::Void: return t.width() == 0 ? "V" : "broken";
    case Type_Type::Bool: return t.width() == 0 ? "B" : "broken";
    case Type_Type::Int: return t.width() == 0 ? "I" : "broken";
    case Type_Type::Uint: return "U" + std::to_string(t.width());
    }
    return "broken";
}

void put(Json& j, Concrete_Value v)
{
    j.open('[').str(name(v.type)).big(v.int_value).close(']');
}

constexpr std::pair<const char*, Expression_Type> operations[] {
    { "logical_and", Expression_Type::logical_and },
    { "logical_or", Expression_Type::logical_or },
    { "equals", Expression_Type::equals },
    { "not_equals", Expression_Type::not_equals },
    { "less_than", Expression_Type::less_than },
    { "greater_than", Expression_Type::greater_than },
    { "less_or_equal", Expression_Type::less_or_equal },
    { "greater_or_equal", Expression_Type::greater_or_equal },
    { "binary_plus", Expression_Type::binary_plus },
    { "binary_minus", Expression_Type::binary_minus },
    { "multiplication", Expression_Type::multiplication },
    { "division", Expression_Type::division },
    { "remainder", Expression_Type::remainder },
    { "shift_left", Expression_Type::shift_left },
    { "shift_right", Expression_Type::shift_right },
    { "bitwise_and", Expression_Type::bitwise_and },
    { "bitwise_or", Expression_Type::bitwise_or },
    { "bitwise_xor", Expression_Type::bitwise_xor },
    { "unary_plus", Expression_Type::unary_plus },
    { "unary_minus", Expression_Type::unary_minus },
    { "logical_not", Expression_Type::logical_not },
    { "bitwise_not", Expression_Type::bitwise_not },
    { "if_expression", Expression_Type::if_expression },
    { "conversion", Expression_Type::conversion },
    { "function_call", Expression_Type::function_call },
    { "literal", Expression_Type::literal },
    { "id", Expression_Type::id },
};

Expression_Type operation(std::string_view s)
{
    for (const auto& [n, op] : operations) {
        if (s == n) {
            return op;
        }
    }
    throw std::runtime_error("no operation");
}

const char* name(Expression_Type x)
{
    for (const auto& [n, op] : operations) {
        if (x == op) {
            return n;
        }
    }
    return "broken";
}

template <typename T, typename... More>
Instruction make(const Debug_Info& info, More... more)
{
    return Instruction { T { { info }, more... } };
}

// ---------------------------------------------------------------------------------- machine
Instruction instruction(const Fields& f, const char* variables, std::string_view id)
{
    const Debug_Info info { Construct(number(f.at(1)) % 20),
                            Source_Position { { .line = number(f.at(1)), .column = 1, .begin = 2 }, "file" }, id };
    const auto variable = [&](std::size_t k) -> const void* { return variables + number(f.at(k)); };
    switch (f.at(2).at(0)) {
    case 'l': return make<ins::Load>(info, variable(3));
    case 's': return make<ins::Store>(info, variable(3));
    case 'f': return make<ins::Forget>(info, variable(3));
    case 'p': return make<ins::Push>(info, value_of(f.at(3), f.at(4)));
    case 'o': return make<ins::Pop>(info);
    case 'j': return make<ins::Relative_Jump>(info, Signed_Size(signed_number(f.at(3))));
    case 'i': return make<ins::Relative_Jump_If>(info, Signed_Size(signed_number(f.at(3))), f.at(4) == "1");
    case 'b': return make<ins::Break>(info);
    case 'c': return make<ins::Continue>(info);
    case 'r': return make<ins::Return>(info);
    case 'v': return make<ins::Convert>(info, type_of(f.at(3)));
    case 'u': return make<ins::Unary_Operate>(info, operation(f.at(3)));
    case 'x': return make<ins::Binary_Operate>(info, operation(f.at(3)));
    case 'k': return make<ins::Call>(info, Size(number(f.at(3))));
    default: return make<ins::Builtin_Call>(info, Builtin_Function::assert);
    }
}

void run_machine(Json& j, const std::vector<Fields>& script, Tracking_Resource& memory)
{
    static const char variables[512] {};
    std::deque<std::string> ids;
    Virtual_Machine m { &memory };
    j.key("ops").open('[');
    for (std::size_t i = 1; i < script.size(); ++i) {
        const Fields& f = script[i];
        const auto built = [&](const Fields& g) {
            ids.push_back("#" + g.at(1));
            return instruction(g, variables, ids.back());
        };
        switch (f[0][0]) {
        case 'I': { // a group of n instructions, which follow
            std::vector<Instruction> group;
            for (std::size_t n = number(f.at(1)); n != 0; --n) {
                group.push_back(built(script.at(++i)));
            }
            j.unum(m.add_instructions(group));
            break;
        }
        case 'A': m.instructions().push_back(built(f)); break;
        case 'P': m.push(value_of(f.at(1), f.at(2))); break;
        case 'J': m.jump_to(number(f.at(1))); break;
        case 'R': m.reset(); break;
        case 'C': m.clear(); break;
        case 'N': j.unum(m.instruction_count()); break;
        case 'D': {
            std::ostringstream out;
            dump_program(out, m.instructions());
            std::string s = out.str();
            // addresses of variables are not the script's business
            for (int k = 511; k >= 0; --k) {
                std::ostringstream p;
                p << static_cast<const void*>(variables + k);
                for (std::size_t at; (at = s.find(p.str())) != s.npos;) {
                    s.replace(at, p.str().size(), "@" + std::to_string(k));
                }
            }
            j.str(s);
            break;
        }
        case 'O': // the operand stack, top first
            j.open('[');
            while (m.stack_size() != 0) {
                put(j, m.pop());
            }
            j.close(']');
            break;
        case 'S': {
            for (std::size_t n = number(f.at(1)); n != 0; --n) {
                j.open('[');
                const Result<void, Execution_Error> r = m.cycle();
                j.unum(m.stack_size());
                if (!r) {
                    const Execution_Error& e = r.error();
                    j.str(execution_error_code_name(e.code));
                    e.code == Execution_Error_Code::evaluation
                        ? j.str(evaluation_error_code_name(e.evaluation_error))
                        : j.null();
                    j.str(e.debug_info.name).num(int(e.debug_info.construct));
                    j.num(e.debug_info.pos ? (long long)(e.debug_info.pos->line) : -1);
                    if (e.comparison_failure) {
                        put(j, e.comparison_failure->left);
                        put(j, e.comparison_failure->right);
                        j.str(name(e.comparison_failure->op));
                    }
                    j.close(']');
                    break;
                }
                j.close(']');
            }
            break;
        }
        }
    }
    j.close(']');
}

// ---------------------------------------------------------------------------------- nested maps
void run_frames(Json& j, const std::vector<Fields>& script, Tracking_Resource& memory)
{
    static const char keys[512] {};
    Linear_Map_Stack m { &memory };
    const auto key = [&](const Fields& f) -> const void* { return keys + number(f.at(1)); };
    const auto entry = [&](const Linear_Map_Stack::Entry* e) {
        if (e == nullptr) {
            j.null();
            return;
        }
        j.open('[').num(e->key ? static_cast<const char*>(e->key) - keys : -1);
        put(j, e->value);
        j.close(']');
    };
    j.key("ops").open('[');
    for (std::size_t i = 1; i < script.size(); ++i) {
        const Fields& f = script[i];
        switch (f[0][0]) {
        case 'f': entry(m.find(key(f))); break;
        case 'e': {
            auto r = m.emplace(key(f), value_of(f.at(2), f.at(3)));
            j.open('[').boolean(bool(r));
            entry(r ? *r : r.error());
            j.close(']');
            break;
        }
        case 'a': entry(&m.assign(key(f), value_of(f.at(2), f.at(3)))); break;
        case 'd': m.erase(key(f)); break;
        case 'p': entry(&m.push_frame(value_of(f.at(2), f.at(3)))); break;
        case 'c': m.clear(); break;
        case 'q':
            if (auto r = m.pop_frame()) {
                put(j, *r);
            }
            else {
                j.null();
            }
            break;
        }
    }
    j.close(']');
}

void run_scopes(Json& j, const std::vector<Fields>& script, Tracking_Resource& memory)
{
    std::deque<Symbol_Table> tables;
    std::deque<std::string> names;
    static char nodes[512] {};
    // Handles are only compared, never read.
    const auto handle = [&](const std::string& s) -> Lookup_Result {
        return s == "b" ? Lookup_Result { Builtin_Function::assert }
            : s[0] == 'p' ? Lookup_Result { reinterpret_cast<Parameter*>(nodes + number(s.substr(1))) }
                          : Lookup_Result { reinterpret_cast<ast::Some_Node*>(nodes + number(s)) };
    };
    const auto show = [&](const Lookup_Result& r) {
        if (const auto* b = get_if<Builtin_Function>(&r)) {
            j.str(*b == Builtin_Function::assert ? "b" : "broken");
        }
        else if (const auto* p = get_if<Parameter*>(&r)) {
            j.str("p" + std::to_string(reinterpret_cast<char*>(*p) - nodes));
        }
        else {
            j.str(std::to_string(reinterpret_cast<char*>(*get_if<ast::Some_Node*>(&r)) - nodes));
        }
    };
    j.key("ops").open('[');
    for (std::size_t i = 1; i < script.size(); ++i) {
        const Fields& f = script[i];
        switch (f[0][0]) {
        case 't':
            if (f.size() == 1) {
                tables.emplace_back(&memory);
            }
            else if (f.at(1) == "init") {
                names.push_back(f.at(2));
                tables.emplace_back(std::initializer_list<Symbol_Table::map_type::value_type> {
                                        { std::string_view(names.back()), handle(f.at(3)) } },
                                    &memory);
            }
            else if (f.size() == 2) {
                tables.emplace_back(Symbol_Table::From_Parent_Tag {}, tables.at(number(f.at(1))));
            }
            else {
                tables.emplace_back(Symbol_Table::From_Parent_Tag {}, tables.at(number(f.at(1))), &memory);
            }
            break;
        case 'e': {
            names.push_back(f.at(2));
            auto r = tables.at(number(f.at(1))).emplace(names.back(), handle(f.at(3)), f.at(4) == "1");
            j.open('[').boolean(r.index() == 0);
            if (const auto* it = get_if<0>(&r)) {
                j.str((*it)->first);
                show((*it)->second);
            }
            else {
                show(*get_if<1>(&r));
            }
            j.close(']');
            break;
        }
        case 'f': {
            Optional_Lookup_Result r = tables.at(number(f.at(1))).find(f.at(2));
            if (r) {
                show(*r);
            }
            else {
                j.null();
            }
            break;
        }
        case 'm': { // moved to another place and back
            Symbol_Table moved { std::move(tables.at(number(f.at(1)))) };
            tables.at(number(f.at(1))) = std::move(moved);
            break;
        }
        }
    }
    j.close(']');
}

// ---------------------------------------------------------------------------------- operations
template <typename T, typename Show>
void outcome(Json& j, const T& r, Show show)
{
    if (r) {
        show(*r);
    }
    else if constexpr (std::is_same_v<std::remove_cvref_t<decltype(r.error())>, Analysis_Error_Code>) {
        j.str(std::string("E ") + std::string(analysis_error_code_name(r.error())));
    }
    else {
        j.str(std::string("E ") + std::string(evaluation_error_code_name(r.error())));
    }
}

void run_operations(Json& j, const std::vector<Fields>& script)
{
    const auto type = [&](Concrete_Type t) { j.str(name(t)); };
    const auto concrete = [&](Concrete_Value v) { put(j, v); };
    const auto abstract = [&](Value v) {
        if (v.is_known()) {
            put(j, v.concrete_value());
        }
        else {
            j.open('[').str(name(v.get_type())).null().close(']');
        }
    };
    j.key("ops").open('[');
    for (std::size_t i = 1; i < script.size(); ++i) {
        const Fields& f = script[i];
        const auto t = [&](std::size_t k) { return type_of(f.at(k)); };
        const auto a = [&](std::size_t k) { return abstract_of(f.at(k), f.at(k + 1)); };
        const auto c = [&](std::size_t k) { return a(k).concrete_value(); };
        const auto known = [&](std::size_t k) { return f.at(k + 1) != "?"; };
        j.open('[');
        switch (f[0][0]) {
        case 'u': {
            const auto op = operation(f.at(1));
            outcome(j, check_unary_operator(op, t(2)), type);
            outcome(j, evaluate_unary_operator(op, a(2)), abstract);
            if (known(2)) {
                outcome(j, evaluate_unary_operator(op, c(2)), concrete);
            }
            break;
        }
        case 'b': {
            const auto op = operation(f.at(1));
            outcome(j, check_binary_operator(t(2), op, t(4)), type);
            outcome(j, evaluate_binary_operator(a(2), op, a(4)), abstract);
            if (known(2) && known(4)) {
                outcome(j, evaluate_binary_operator(c(2), op, c(4)), concrete);
            }
            break;
        }
        case 'i': {
            outcome(j, check_if_expression(t(1), t(3), t(5)), type);
            outcome(j, evaluate_if_expression(a(1), a(3), a(5)), abstract);
            if (known(1) && known(3) && known(5)) {
                outcome(j, evaluate_if_expression(c(1), c(3), c(5)), concrete);
            }
            break;
        }
        case 'v': {
            j.boolean(t(1).is_convertible_to(t(3)));
            outcome(j, evaluate_conversion(a(1), t(3)), abstract);
            if (known(1)) {
                outcome(j, evaluate_conversion(c(1), t(3)), concrete);
            }
            break;
        }
        case 't': { // truncating conversion
            outcome(j, a(1).convert_to(t(3), Conversion_Type::truncating_numeric), abstract);
            if (known(1)) {
                outcome(j, c(1).convert_to(t(3), Conversion_Type::truncating_numeric), concrete);
            }
            break;
        }
        case 'c': outcome(j, get_common_type(t(1), t(2)), type); break;
        case 'y': {
            j.big(__int128(t(1).get_mask())).boolean(t(1).is_integer()).boolean(t(1).is_uint());
            j.num(t(1).width()).boolean(t(1) == t(2));
            std::ostringstream out;
            out << t(1);
            j.str(out.str());
            break;
        }
        case 'a': { // assert with any number of arguments
            std::vector<Concrete_Type> types;
            std::vector<Concrete_Value> values;
            std::vector<Value> abstracts;
            bool all = true;
            for (std::size_t k = 1; k < f.size(); k += 2) {
                types.push_back(t(k));
                abstracts.push_back(a(k));
                all = all && known(k);
                if (known(k)) {
                    values.push_back(c(k));
                }
            }
            const auto as = Builtin_Function::assert;
            outcome(j, check_builtin_function(as, types), type);
            outcome(j, check_builtin_function(as, abstracts), type);
            outcome(j, evaluate_builtin_function(as, abstracts), abstract);
            if (all) {
                outcome(j, check_builtin_function(as, values), type);
                outcome(j, evaluate_builtin_function(as, values), concrete);
            }
            break;
        }
        case 'r': { // prints a value
            std::ostringstream out;
            out << c(1);
            j.str(out.str());
            break;
        }
        case '3': { // three-valued logic: 0, 1 or 2 (maybe)
            const auto tri = [](const std::string& s) {
                return s == "0" ? Tribool::fawse : s == "1" ? Tribool::twue : Tribool::maybe;
            };
            const auto num = [&](Tribool x) {
                j.num(x == Tribool::fawse ? 0 : x == Tribool::twue ? 1 : x == Tribool::maybe ? 2 : 9);
            };
            const Tribool x = tri(f.at(1)), y = tri(f.at(2));
            num(!x), num(x && y), num(x || y), num(equals(x, y)), num(not_equals(x, y));
            break;
        }
        }
        j.close(']');
    }
    j.close(']');
}

} // namespace

void run_out(Json& j, std::string_view source, Tracking_Resource& memory)
{
    const std::vector<Fields> script = read_script(source);
    const std::string& mode = script.at(0).at(0);
    if (mode == "machine") {
        run_machine(j, script, memory);
    }
    else if (mode == "frames") {
        run_frames(j, script, memory);
    }
    else if (mode == "scopes") {
        run_scopes(j, script, memory);
    }
    else {
        run_operations(j, script);
    }
}

} // namespace probe

#include "probe_main.cpp"
