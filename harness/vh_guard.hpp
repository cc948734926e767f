// Buffers right before memory that cannot be touched: reading or writing beyond their end is a crash.
#pragma once
#include <sys/mman.h>

#include <cstdlib>
#include <cstring>

namespace vh {
// a buffer right before memory that cannot be touched
class Guarded
{
  public:
    explicit Guarded(size_t n, unsigned char fill = 0xE7) : cap(n)
    {
        const size_t page = 4096;
        total = (n + 64 + page - 1) / page * page + page;
        base = static_cast<unsigned char*>(mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (base == MAP_FAILED || mprotect(base + total - page, page, PROT_NONE) != 0) { std::abort(); }
        p = base + total - page - n;
        std::memset(base, 0x5C, static_cast<size_t>(p - base));
        std::memset(p, fill, n);
    }
    Guarded(const Guarded&) = delete;
    Guarded& operator=(const Guarded&) = delete;
    ~Guarded() { munmap(base, total); }
    [[nodiscard]] bool clean() const
    {
        for (const unsigned char* q = base; q < p; ++q)
        {
            if (*q != 0x5C) { return false; }
        }
        return true;
    }
    size_t cap;
    unsigned char* p;

  private:
    size_t total;
    unsigned char* base;
};
} // namespace vh
