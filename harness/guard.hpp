// Puts every mapping the library makes between inaccessible pages.
#pragma once
#include "wrap.hpp"
#include <sys/mman.h>
namespace vf {
struct GuardMaps : Hook {
    uint64_t n = 0;
    void before(Call& c) override {
        if (c.op != Op::mmap || (c.flags & MAP_FIXED) || c.len == 0 || c.len > (1ull << 30)) return;
        size_t ln = (c.len + 4095) / 4096 * 4096;
        char* a = (char*)mmap(nullptr, ln + 2 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (a == MAP_FAILED) return;
        void* r = mmap(a + 4096, c.len, c.prot, c.flags | MAP_FIXED, c.fd, c.off);
        if (r == MAP_FAILED) { munmap(a, ln + 2 * 4096); return; }
        c.handled = true; c.hret = (long)r; n++;
    }
};

// every byte of every shared object whose name contains a string, the slack of the last page included
struct ShmSnap {
    std::map<std::string, std::vector<uint8_t>> d;
    static bool is_sem(const std::string& n) { return n.compare(0, 4, "sem.") == 0; }
    static void each(const std::string& key, const std::function<void(const std::string&, uint8_t*, size_t size, size_t mapped)>& f) {
        for (auto& n : shm_entries(key)) {
            if (is_sem(n)) continue;
            int fd = ::open(("/dev/shm/" + n).c_str(), O_RDWR);
            if (fd < 0) continue;
            struct stat st;
            fstat(fd, &st);
            size_t ln = (st.st_size + 4095) / 4096 * 4096;
            if (ln) {
                uint8_t* p = (uint8_t*)mmap(nullptr, ln, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p != MAP_FAILED) { f(n, p, st.st_size, ln); munmap(p, ln); }
            } else f(n, nullptr, 0, 0);
            ::close(fd);
        }
    }
    static void canary(const std::string& key) {
        each(key, [](const std::string&, uint8_t* p, size_t s, size_t m) { for (size_t i = s; i < m; i++) p[i] = (uint8_t)(0xC3 ^ i); });
    }
    void take(const std::string& key) {
        d.clear();
        each(key, [&](const std::string& n, uint8_t* p, size_t, size_t m) { d[n].assign(p, p + m); });
    }
    std::string diff(const std::string& key) {
        ShmSnap o; o.take(key);
        for (auto& kv : d) {
            auto it = o.d.find(kv.first);
            if (it == o.d.end()) return kv.first + " disappeared";
            if (it->second.size() != kv.second.size()) return kv.first + " changed its size";
            for (size_t i = 0; i < kv.second.size(); i++) if (kv.second[i] != it->second[i]) return fmt("byte %zu of %s changed", i, kv.first.c_str());
        }
        for (auto& kv : o.d) if (!d.count(kv.first)) return kv.first + " appeared";
        return "";
    }
};
}  // namespace vf
