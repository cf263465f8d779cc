// Size of a storage block, so that the harnesses' component types fill blocks in the same way whatever it is.
#pragma once
#include <co_ecs/co_ecs.hpp>
template<class C>
constexpr size_t block_bytes() {
    if constexpr (requires { C::chunk_bytes; }) return C::chunk_bytes;
    else return 16 * 1024;
}
constexpr size_t CAP = block_bytes<co_ecs::chunk>();
