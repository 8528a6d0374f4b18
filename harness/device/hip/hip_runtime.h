#pragma once
#include "device_sim.hpp"
VH_DEVICE_API( hip, hipMemcpyKind )
