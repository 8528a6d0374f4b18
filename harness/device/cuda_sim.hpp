// what nvcc includes by itself
#pragma once
#include "device_sim.hpp"
VH_DEVICE_API( cuda, cudaMemcpyKind )
#include <csignal>
#include <unistd.h>
#if defined( __CUDA_ARCH__ )
inline void __trap() { std::fflush( stdout ); ::raise( SIGTRAP ); }
#endif
