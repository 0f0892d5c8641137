// Allocation functions of the harness.
#include "bin_ops.h"
#include <new>

namespace vf {
// ---- limits memory so malformed sizes lead to std::bad_alloc (as they would on a machine with limited memory)
static constexpr std::size_t maxAllocation = 1024 * 1024, maxTotal = 64u * 1024 * 1024;

} // namespace vf

void *operator new(std::size_t n)
{
    auto &limit = vf::limiter();
    if (limit.active && (n > vf::maxAllocation || (limit.total += n) > vf::maxTotal)) {
        throw std::bad_alloc();
    }
    void *const p = std::malloc(n ? n : 1);
    if (!p) {
        throw std::bad_alloc();
    }
    return p;
}
void operator delete(void *p) noexcept
{
    std::free(p);
}
void operator delete(void *p, std::size_t) noexcept
{
    std::free(p);
}
