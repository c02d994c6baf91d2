// A memory resource that monitors allocation discipline: every deallocation must match an earlier
// allocation (address, size, alignment), and everything is returned by the end of a request.
#pragma once
#include <cstddef>
#include <cstdlib>
#include <memory_resource>
#include <new>
#include <unordered_map>

namespace probe {

struct Tracking_Resource final : std::pmr::memory_resource {
    struct Block {
        std::size_t size, align;
    };
    std::unordered_map<void*, Block> live;
    std::size_t live_bytes = 0, total_allocs = 0, mismatches = 0;
    std::size_t limit = std::size_t(384) << 20;
    /// The number of allocations that succeed, if positive.
    std::size_t fail_after = 0;
    bool failed = false;

    void* do_allocate(std::size_t n, std::size_t align) override
    {
        if (fail_after != 0 && total_allocs >= fail_after) {
            failed = true;
            throw std::bad_alloc();
        }
        if (live_bytes + n > limit) {
            throw std::bad_alloc();
        }
        void* p = ::operator new(n ? n : 1, std::align_val_t(align));
        live.emplace(p, Block { n, align });
        live_bytes += n;
        ++total_allocs;
        return p;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t align) override
    {
        auto it = live.find(p);
        if (it == live.end()) {
            ++mismatches;
            return;
        }
        if (it->second.size != n || it->second.align != align) {
            ++mismatches;
        }
        live_bytes -= it->second.size;
        ::operator delete(p, std::align_val_t(it->second.align));
        live.erase(it);
    }
    bool do_is_equal(const memory_resource& other) const noexcept override
    {
        return this == &other;
    }
    void drop_all()
    {
        for (auto& [p, b] : live) {
            ::operator delete(p, std::align_val_t(b.align));
        }
        live.clear();
        live_bytes = 0;
    }
};

} // namespace probe
