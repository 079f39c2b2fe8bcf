// Force-included before every translation unit of a harness: supplies what the sandbox's older Boost lacks
// (boost::lockfree::detail::cacheline_bytes), so that the parts of the library left out of the normal build can
// be compiled unchanged.
#pragma once
#ifdef __cplusplus
#include <cstddef>
#include <cstdint>
namespace boost { namespace lockfree { namespace detail { constexpr std::size_t cacheline_bytes = 64; } } }
#endif
