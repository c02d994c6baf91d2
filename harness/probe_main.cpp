#include "probe.hpp"

#include <cstring>
#include <csignal>
#include <exception>
#include <iostream>
#include <memory>
#include <new>
#include <sys/time.h>
#include <unistd.h>

#include "common/assert.hpp"

using namespace probe;

static char g_mode[16];

static void on_cpu_limit(int)
{
    static const char msg[] = "PROBE-CPU-LIMIT\n";
    (void)!write(2, msg, sizeof msg - 1);
    _exit(97);
}

static void arm(int seconds)
{
    itimerval t {};
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}

static bool read_exact(char* p, size_t n)
{
    return std::fread(p, 1, n, stdin) == n;
}

int main()
{
    std::signal(SIGPROF, on_cpu_limit);
    char line[4200];
    while (std::fgets(line, sizeof line, stdin)) {
        unsigned long long len = 0;
        char flags[4096] = "";
        int cpu = 20;
        if (std::sscanf(line, "%15s %llu %d %4095s", g_mode, &len, &cpu, flags) < 3) {
            std::fprintf(stderr, "PROBE-PROTOCOL-ERROR\n");
            return 96;
        }
        std::unique_ptr<char[]> data(new char[len ? len : 1]);
        if (!read_exact(data.get(), len)) {
            std::fprintf(stderr, "PROBE-PROTOCOL-ERROR\n");
            return 96;
        }
        // copy into an allocation of exactly `len` bytes
        char* exact = static_cast<char*>(::operator new(len));
        std::memcpy(exact, data.get(), len);
        data.reset();
        std::string_view source(exact, len);

        Tracking_Resource memory;
        memory.fail_after = std::size_t(number_flag(flags, ":A", 0));
        Json j;
        arm(cpu);
        j.open('{');
        std::string problem;
        std::string body;
        {
            Json inner;
            inner.open('{');
            const auto fail = [&](std::string_view kind, std::string_view what) {
                Json e;
                e.open('{').key("kind").str(kind).key("what").str(what).close('}');
                problem = e.s;
            };
            try {
#ifdef PROBE_OUT
                run_out(inner, source, memory);
#else
                if (!std::strcmp(g_mode, "bms")) {
                    run_bms(inner, source, flags, memory);
                }
                else if (!std::strcmp(g_mode, "bmd")) {
                    run_bmd(inner, source, flags, memory);
                }
                else if (!std::strcmp(g_mode, "hl")) {
                    run_highlight(inner, source, flags, memory);
                }
                else if (!std::strcmp(g_mode, "num")) {
                    run_num(inner, source, memory);
                }
#endif
                inner.close('}');
                body = inner.s;
            } catch (const bit_manipulation::Assertion_Error& e) {
                std::string w = "assertion '";
                w += e.message;
                w += "' in ";
                w += e.location.function_name();
                w += " (";
                w += e.location.file_name();
                w += ':';
                w += std::to_string(e.location.line());
                w += ')';
                fail("assertion", w);
            } catch (const std::bad_alloc&) {
                fail("bad_alloc", "memory limit");
            } catch (const std::exception& e) {
                fail("exception", e.what());
            } catch (...) {
                fail("exception", "unknown");
            }
        }
        arm(0);
        if (!problem.empty()) {
            j.key("problem");
            j.s += problem;
            j.comma = true;
        }
        else {
            j.key("result");
            j.s += body;
            j.comma = true;
        }
        if (memory.failed) {
            j.key("out_of_memory").boolean(true);
        }
        j.key("allocs").unum(memory.total_allocs);
        j.key("mismatch").unum(memory.mismatches);
        j.key("unfreed").unum(memory.live_bytes);
        j.close('}');
        memory.drop_all();
        ::operator delete(exact, len);
        std::printf("%zu\n", j.s.size());
        std::fwrite(j.s.data(), 1, j.s.size(), stdout);
        std::fflush(stdout);
    }
    return 0;
}
