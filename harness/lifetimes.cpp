// Random operation sequences on Variant and Result, with a ledger of every live alternative.
// usage: lifetimes SEED SEQUENCES STEPS     prints "FAIL ..." or a line of counters
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <random>
#include <string>
#include <unordered_map>
#include <vector>

#include "common/result.hpp"
#include "common/variant.hpp"

using namespace bit_manipulation;

namespace {

std::mt19937_64 rng;
std::string trace;
std::map<std::string, unsigned long long> count;
unsigned long long states = 0;
std::unordered_map<std::uint64_t, char> seen;

[[noreturn]] void fail(const std::string& what)
{
    std::printf("FAIL %s\n  operations: %s\n", what.c_str(), trace.c_str());
    std::fflush(stdout);
    std::_Exit(1);
}

unsigned pick(unsigned n)
{
    return unsigned(rng() % n);
}

// ------------------------------------------------------------------ ledger

struct Record {
    int kind;
};
std::unordered_map<const void*, Record> live;
unsigned long long constructed = 0, destroyed = 0;
int throw_in = -1;

struct Boom { };

void maybe_throw()
{
    if (throw_in >= 0 && throw_in-- == 0) {
        throw Boom {};
    }
}

void born(const void* p, int kind)
{
    ++constructed;
    if (const auto it = live.find(p); it != live.end()) {
        fail("an alternative is constructed over a live one");
    }
    live[p] = { kind };
}

void died(const void* p, int kind)
{
    ++destroyed;
    const auto it = live.find(p);
    if (it == live.end()) {
        fail("an alternative is destroyed that is not alive");
    }
    if (it->second.kind != kind) {
        fail("an alternative is destroyed as one of another type");
    }
    live.erase(it);
}

void used(const void* p, int kind)
{
    const auto it = live.find(p);
    if (it == live.end() || it->second.kind != kind) {
        fail("an alternative is used that is not alive");
    }
}

constexpr int moved_from = -1;

// A type with K as its identity; MayThrow: copying may throw; Size: extra payload.
template <int K, bool MayThrow, int Extra>
struct Tracked {
    int value;
    char payload[Extra];
    std::string heap;

    explicit Tracked(int v = 0)
        : value(v)
        , heap(40, char('a' + (v & 15)))
    {
        std::memset(payload, v & 127, Extra);
        born(this, K);
    }
    Tracked(const Tracked& o) noexcept(!MayThrow)
        : value(o.value)
    {
        used(&o, K);
        if constexpr (MayThrow) {
            maybe_throw();
        }
        heap = o.heap;
        std::memcpy(payload, o.payload, Extra);
        born(this, K);
        ++count["copy constructions"];
    }
    Tracked(Tracked&& o) noexcept
        : value(o.value)
    {
        used(&o, K);
        heap = std::move(o.heap);
        std::memcpy(payload, o.payload, Extra);
        o.value = moved_from;
        born(this, K);
        ++count["move constructions"];
    }
    Tracked& operator=(const Tracked& o) noexcept(!MayThrow)
    {
        used(this, K);
        used(&o, K);
        if constexpr (MayThrow) {
            maybe_throw();
        }
        value = o.value;
        heap = o.heap;
        std::memmove(payload, o.payload, Extra);
        ++count["copy assignments"];
        return *this;
    }
    Tracked& operator=(Tracked&& o) noexcept
    {
        used(this, K);
        used(&o, K);
        if (this != &o) {
            value = o.value;
            heap = std::move(o.heap);
            std::memmove(payload, o.payload, Extra);
            o.value = moved_from;
        }
        ++count["move assignments"];
        return *this;
    }
    ~Tracked()
    {
        died(this, K);
    }
    bool intact() const
    {
        used(this, K);
        if (value == moved_from) {
            return true;
        }
        if (heap != std::string(40, char('a' + (value & 15)))) {
            return false;
        }
        for (char c : payload) {
            if (c != char(value & 127)) {
                return false;
            }
        }
        return true;
    }
    friend bool operator==(const Tracked& a, const Tracked& b)
    {
        used(&a, K);
        used(&b, K);
        return a.value == b.value;
    }
};

template <int K>
struct Plain {
    int value;
    char pad[K];
    bool intact() const
    {
        return true;
    }
    friend bool operator==(const Plain& a, const Plain& b)
    {
        return a.value == b.value;
    }
};

template <typename T>
struct Make {
    static T of(int v)
    {
        return T(v);
    }
};
template <int K>
struct Make<Plain<K>> {
    static Plain<K> of(int v)
    {
        Plain<K> p {};
        p.value = v;
        return p;
    }
};
template <typename T>
int value_of(const T& x)
{
    if (!x.intact()) {
        fail("the contents of an alternative are damaged");
    }
    return x.value;
}

// What an object should hold.
struct Model {
    std::size_t index;
    int value; // moved_from: anything
    bool operator==(const Model&) const = default;
};

void note(const char* what, int a, int b)
{
    char buf[64];
    std::snprintf(buf, sizeof buf, "%s(%d,%d) ", what, a, b);
    trace += buf;
    ++count[what];
}

void saw(const std::vector<std::optional<Model>>& m, const char* op, int tag)
{
    std::uint64_t h = 1469598103934665603ull + std::uint64_t(tag);
    const auto mix = [&](std::uint64_t x) { h = (h ^ x) * 1099511628211ull; };
    for (const auto& x : m) {
        mix(x ? x->index + 2 : 1);
        mix(x && x->value == moved_from);
    }
    for (const char* p = op; *p; ++p) {
        mix(std::uint64_t(*p));
    }
    if (seen.emplace(h, 0).second) {
        ++states;
    }
}

// ------------------------------------------------------------------ Variant

template <typename... Ts>
struct Variant_Run {
    using V = Variant<Ts...>;
    static constexpr std::size_t n = sizeof...(Ts);
    static constexpr int slots = 4;

    std::optional<V> v[slots];
    std::vector<std::optional<Model>> m = std::vector<std::optional<Model>>(slots);
    int tag;

    template <typename F, std::size_t... I>
    static void with_impl(std::size_t i, F f, std::index_sequence<I...>)
    {
        ((I == i ? (f.template operator()<I, pack_at_index_t<I, Ts...>>(), 0) : 0), ...);
    }
    template <typename F>
    static void with(std::size_t i, F f)
    {
        with_impl(i, f, std::index_sequence_for<Ts...> {});
    }

    void check(int s)
    {
        if (v[s].has_value() != m[s].has_value()) {
            fail("harness slot mismatch");
        }
        if (!v[s]) {
            return;
        }
        V& x = *v[s];
        const V& c = x;
        if (x.index() != m[s]->index) {
            fail("index() is " + std::to_string(x.index()) + ", expected "
                 + std::to_string(m[s]->index));
        }
        with(m[s]->index, [&]<std::size_t I, typename T>() {
            if (!holds_alternative<T>(x) || get_if<T>(&x) == nullptr || get_if<I>(&c) == nullptr) {
                fail("holds_alternative or get_if denies the alternative that is held");
            }
            if (&get<T>(x) != get_if<I>(&x) || &get<I>(c) != get_if<T>(&c)) {
                fail("get and get_if disagree");
            }
            const int have = value_of(get<T>(c));
            if (m[s]->value != moved_from && have != m[s]->value) {
                fail("the value held is " + std::to_string(have) + ", expected "
                     + std::to_string(m[s]->value));
            }
            int visited = 0;
            const auto visitor = [&]<typename U>(const U& u) {
                ++visited;
                if (!std::is_same_v<U, T> || static_cast<const void*>(&u) != &get<T>(c)) {
                    fail("visit passes something else than the alternative that is held");
                }
                return value_of(u);
            };
            if (visit(visitor, x) != have || visit(visitor, c) != have || visited != 2) {
                fail("visit does not return the result of the visitor");
            }
            if (m[s]->value != moved_from) {
                const T same = Make<T>::of(have), other = Make<T>::of(have + 1);
                if (!(x == same) || x == other) {
                    fail("comparison with a value is wrong");
                }
            }
        });
        for (std::size_t i = 0; i < n; ++i) {
            if (i != m[s]->index) {
                with(i, [&]<std::size_t I, typename T>() {
                    if (holds_alternative<T>(x) || get_if<T>(&x) != nullptr
                        || get_if<I>(&c) != nullptr) {
                        fail("an alternative is reported that is not held");
                    }
                });
            }
        }
    }

    template <typename F>
    bool guarded(F f)
    {
        try {
            f();
            throw_in = -1;
            return true;
        } catch (const Boom&) {
            throw_in = -1;
            ++count["exceptions while copying"];
            return false;
        }
    }

    void step()
    {
        const int a = int(pick(slots)), b = int(pick(slots));
        const std::size_t i = pick(n);
        const int val = int(pick(1000));
        if (pick(12) == 0) {
            throw_in = int(pick(2));
        }
        const char* op = "";
        switch (pick(13)) {
        case 0:
            op = "construct";
            note(op, a, int(i));
            throw_in = -1;
            with(i, [&]<std::size_t I, typename T>() {
                v[a].reset();
                v[a].emplace(Make<T>::of(val));
                m[a] = Model { I, val };
            });
            break;
        case 1:
            op = "construct from lvalue";
            note(op, a, int(i));
            with(i, [&]<std::size_t I, typename T>() {
                v[a].reset();
                m[a].reset();
                const T x = Make<T>::of(val);
                T y = Make<T>::of(val);
                const bool use_const = pick(2);
                if (guarded([&] {
                        if (use_const) {
                            v[a].emplace(x);
                        }
                        else {
                            v[a].emplace(y);
                        }
                    })) {
                    m[a] = Model { I, val };
                }
                if (value_of(x) != val || value_of(y) != val) {
                    fail("copying into a variant changes the source");
                }
            });
            break;
        case 2:
            op = "default construct";
            note(op, a, 0);
            throw_in = -1;
            v[a].reset();
            v[a].emplace();
            m[a] = Model { 0, std::is_trivially_copyable_v<pack_at_index_t<0, Ts...>> ? moved_from : 0 };
            break;
        case 3:
            op = "copy construct";
            note(op, a, b);
            if (a != b && v[b]) {
                v[a].reset();
                m[a].reset();
                const V& source = *v[b];
                if (guarded([&] { v[a].emplace(source); })) {
                    m[a] = m[b];
                }
            }
            break;
        case 4:
            op = "move construct";
            note(op, a, b);
            throw_in = -1;
            if (a != b && v[b]) {
                v[a].reset();
                v[a].emplace(std::move(*v[b]));
                m[a] = m[b];
                m[b]->value = moved_from;
            }
            break;
        case 5:
        case 6:
            op = "copy assign";
            note(op, a, b);
            if (v[a] && v[b]) {
                const V& source = *v[b];
                if (guarded([&] {
                        if (&(*v[a] = source) != &*v[a]) {
                            fail("assignment does not return its object");
                        }
                    })) {
                    m[a] = m[b];
                }
            }
            break;
        case 7:
        case 8:
            op = a == b ? "self move assign" : "move assign";
            note(op, a, b);
            throw_in = -1;
            if (v[a] && v[b]) {
                *v[a] = std::move(*v[b]);
                m[a] = m[b];
                if (a != b) {
                    m[b]->value = moved_from;
                }
            }
            break;
        case 9:
            op = "assign value";
            note(op, a, int(i));
            throw_in = -1;
            if (v[a]) {
                with(i, [&]<std::size_t I, typename T>() {
                    *v[a] = V(Make<T>::of(val));
                    m[a] = Model { I, val };
                });
            }
            break;
        case 10:
            op = "swap";
            note(op, a, b);
            throw_in = -1;
            if (v[a] && v[b] && a != b) {
                using std::swap;
                swap(*v[a], *v[b]);
                std::swap(m[a], m[b]);
            }
            break;
        case 11:
            op = "destroy";
            note(op, a, 0);
            throw_in = -1;
            v[a].reset();
            m[a].reset();
            break;
        case 12:
            op = "compare";
            note(op, a, b);
            throw_in = -1;
            if (v[a] && v[b] && m[a]->value != moved_from && m[b]->value != moved_from) {
                if ((*v[a] == *v[b]) != (*m[a] == *m[b])) {
                    fail("comparison of variants is wrong");
                }
            }
            else if (v[a]) {
                // moving an alternative out through a visitor and through get
                with(m[a]->index, [&]<std::size_t I, typename T>() {
                    const int before = m[a]->value;
                    T out = get<T>(std::move(*v[a]));
                    if (before != moved_from && value_of(out) != before) {
                        fail("get of an expiring variant gives another value");
                    }
                    m[a]->value = moved_from;
                });
            }
            break;
        }
        throw_in = -1;
        for (int s = 0; s < slots; ++s) {
            check(s);
        }
        std::size_t alive = 0;
        for (int s = 0; s < slots; ++s) {
            if (m[s]) {
                with(m[s]->index, [&]<std::size_t I, typename T>() {
                    alive += !std::is_trivially_copyable_v<T>;
                });
            }
        }
        if (live.size() != alive) {
            fail(std::to_string(live.size()) + " alternatives are alive, expected "
                 + std::to_string(alive));
        }
        saw(m, op, tag);
    }

    void run(int steps)
    {
        for (int s = 0; s < steps; ++s) {
            step();
        }
        for (auto& x : v) {
            x.reset();
        }
        if (!live.empty()) {
            fail("alternatives are left alive");
        }
        trace.clear();
    }
};

// ------------------------------------------------------------------ Result

template <typename T, typename E>
struct Result_Run {
    using R = Result<T, E>;
    static constexpr bool is_void = std::is_void_v<T>;
    static constexpr int slots = 4;
    std::optional<R> v[slots];
    std::vector<std::optional<Model>> m = std::vector<std::optional<Model>>(slots); // 0 value 1 error
    int tag;

    void check(int s)
    {
        if (!v[s]) {
            return;
        }
        R& x = *v[s];
        const R& c = x;
        if (x.has_value() != (m[s]->index == 0) || bool(c) != c.has_value()) {
            fail("has_value() is wrong");
        }
        int have = 0;
        if (x.has_value()) {
            if constexpr (!is_void) {
                have = value_of(*x);
                if (&*x != &x.value() || &*c != &c.value() || x.operator->() != &*x
                    || c.operator->() != &*c) {
                    fail("the accessors of the value disagree");
                }
            }
            else {
                *x;
                c.value();
                have = m[s]->value;
            }
        }
        else {
            have = value_of(x.error());
            if (&x.error() != &c.error()) {
                fail("the accessors of the error disagree");
            }
        }
        if (m[s]->value != moved_from && have != m[s]->value) {
            fail("the result holds " + std::to_string(have) + ", expected "
                 + std::to_string(m[s]->value));
        }
        // access to the alternative that is not held is diagnosed
        if (pick(16) == 0) {
            bool thrown = false;
            try {
                if (x.has_value()) {
                    (void)x.error();
                }
                else {
                    x.value();
                }
            } catch (const Assertion_Error&) {
                thrown = true;
            }
            if (!thrown) {
                fail("access to the alternative that is not held is not diagnosed");
            }
        }
    }

    void make(int a, bool good, int val, int how)
    {
        v[a].reset();
        if (good) {
            if constexpr (is_void) {
                v[a].emplace();
            }
            else {
                T x = Make<T>::of(val);
                const T& c = x;
                switch (how) {
                case 0: v[a].emplace(c); break;
                case 1: v[a].emplace(std::move(x)); break;
                case 2: v[a].emplace(Success_Tag {}, c); break;
                default: v[a].emplace(Success_Tag {}, std::move(x)); break;
                }
            }
            m[a] = Model { 0, val };
        }
        else {
            E x = Make<E>::of(val);
            const E& c = x;
            switch (how) {
            case 0: v[a].emplace(c); break;
            case 1: v[a].emplace(std::move(x)); break;
            default:
                if constexpr (is_void) {
                    v[a].emplace(c);
                }
                else if (how == 2) {
                    v[a].emplace(Error_Tag {}, c);
                }
                else {
                    v[a].emplace(Error_Tag {}, std::move(x));
                }
            }
            m[a] = Model { 1, val };
        }
    }

    void step()
    {
        const int a = int(pick(slots)), b = int(pick(slots));
        const int val = int(pick(1000));
        const char* op = "";
        switch (pick(9)) {
        case 0:
        case 1: {
            const bool good = pick(2);
            op = good ? "result of value" : "result of error";
            note(op, a, val);
            make(a, good, val, int(pick(4)));
            break;
        }
        case 2:
            op = "result copy construct";
            note(op, a, b);
            if (a != b && v[b]) {
                v[a].reset();
                const R& source = *v[b];
                v[a].emplace(source);
                m[a] = m[b];
            }
            break;
        case 3:
            op = "result move construct";
            note(op, a, b);
            if (a != b && v[b]) {
                v[a].reset();
                v[a].emplace(std::move(*v[b]));
                m[a] = m[b];
                m[b]->value = moved_from;
            }
            break;
        case 4:
            op = a == b ? "result self copy assign" : "result copy assign";
            note(op, a, b);
            if (v[a] && v[b]) {
                const R& source = *v[b];
                if (&(*v[a] = source) != &*v[a]) {
                    fail("assignment does not return its object");
                }
                m[a] = m[b];
            }
            break;
        case 5:
            op = a == b ? "result self move assign" : "result move assign";
            note(op, a, b);
            if (v[a] && v[b]) {
                if (&(*v[a] = std::move(*v[b])) != &*v[a]) {
                    fail("assignment does not return its object");
                }
                m[a] = m[b];
                if (a != b) {
                    m[b]->value = moved_from;
                }
            }
            break;
        case 6:
            op = "result swap";
            note(op, a, b);
            if (v[a] && v[b] && a != b) {
                std::swap(*v[a], *v[b]);
                std::swap(m[a], m[b]);
            }
            break;
        case 7:
            op = "result destroy";
            note(op, a, 0);
            v[a].reset();
            m[a].reset();
            break;
        case 8:
            op = "result take";
            note(op, a, 0);
            if (v[a]) {
                const int before = m[a]->value;
                if (m[a]->index == 1) {
                    E e = std::move(*v[a]).error();
                    if (before != moved_from && value_of(e) != before) {
                        fail("the error taken out is another one");
                    }
                    m[a]->value = moved_from;
                }
                else if constexpr (!is_void) {
                    T t = pick(2) ? *std::move(*v[a]) : std::move(*v[a]).value();
                    if (before != moved_from && value_of(t) != before) {
                        fail("the value taken out is another one");
                    }
                    m[a]->value = moved_from;
                }
            }
            break;
        }
        for (int s = 0; s < slots; ++s) {
            check(s);
        }
        std::size_t alive = 0;
        for (int s = 0; s < slots; ++s) {
            if (m[s]) {
                if (m[s]->index == 1) {
                    alive += !std::is_trivially_copyable_v<E>;
                }
                else if constexpr (!is_void) {
                    alive += !std::is_trivially_copyable_v<T>;
                }
            }
        }
        if (live.size() != alive) {
            fail(std::to_string(live.size()) + " alternatives are alive, expected "
                 + std::to_string(alive));
        }
        saw(m, op, tag);
    }

    void run(int steps)
    {
        for (int s = 0; s < steps; ++s) {
            step();
        }
        for (auto& x : v) {
            x.reset();
        }
        if (!live.empty()) {
            fail("alternatives are left alive");
        }
        trace.clear();
    }
};

template <int K>
using N = Tracked<K, false, 1 + K % 30>;
template <int K>
using X = Tracked<K, true, 1 + (K * 7) % 50>;

template <typename R>
void go(int tag, int steps)
{
    R r;
    r.tag = tag;
    r.run(steps);
}

} // namespace

int main(int argc, char** argv)
{
    if (argc != 4) {
        return 2;
    }
    rng.seed(std::strtoull(argv[1], nullptr, 10));
    const int sequences = std::atoi(argv[2]), steps = std::atoi(argv[3]);
    for (int i = 0; i < sequences; ++i) {
        switch (pick(16)) {
        case 0: go<Variant_Run<N<1>>>(0, steps); break;
        case 1: go<Variant_Run<N<1>, N<2>>>(1, steps); break;
        case 2: go<Variant_Run<N<1>, X<2>, Plain<3>>>(2, steps); break;
        case 3: go<Variant_Run<X<1>, Plain<1>, X<3>, N<4>>>(3, steps); break;
        case 4: go<Variant_Run<N<1>, N<2>, X<3>, X<4>, N<5>, Plain<6>, N<7>>>(4, steps); break;
        case 5:
            go<Variant_Run<X<1>, N<2>, X<3>, N<4>, Plain<5>, N<6>, N<7>, N<8>, Plain<9>, X<10>>>(
                5, steps);
            break;
        case 6:
            go<Variant_Run<N<1>, N<2>, N<3>, N<4>, N<5>, N<6>, N<7>, N<8>, N<9>, N<10>, N<11>, N<12>,
                           N<13>, N<14>, N<15>, N<16>, N<17>, N<18>, N<19>, N<20>, N<21>, N<22>, N<23>,
                           X<24>, Plain<25>>>(6, steps);
            break;
        case 7: go<Variant_Run<Plain<1>, Plain<20>, Plain<3>>>(7, steps); break;
        case 8: go<Variant_Run<X<1>, X<2>>>(8, steps); break;
        case 9: go<Result_Run<N<1>, N<2>>>(9, steps); break;
        case 10: go<Result_Run<N<1>, Plain<2>>>(10, steps); break;
        case 11: go<Result_Run<Plain<1>, N<2>>>(11, steps); break;
        case 12: go<Result_Run<void, N<2>>>(12, steps); break;
        case 13: go<Result_Run<Plain<1>, Plain<30>>>(13, steps); break;
        case 14: go<Result_Run<N<11>, N<2>>>(14, steps); break;
        case 15: go<Variant_Run<Plain<1>>>(15, steps); break;
        }
    }
    if (constructed != destroyed) {
        fail("constructions and destructions differ");
    }
    std::printf("{\"states\": %llu, \"constructed\": %llu, \"destroyed\": %llu", states, constructed,
                destroyed);
    for (const auto& [k, v] : count) {
        std::printf(", \"%s\": %llu", k.c_str(), v);
    }
    std::printf("}\n");
    return 0;
}
