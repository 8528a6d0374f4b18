INIT Init
NEXT Next
CONSTANTS MaxLen = 2
 Names = {"SHIVA_ENABLE_BOUNDS_CHECK", "SHIVA_ENABLE_CUDA", "SHIVA_ENABLE_HIP", "ENABLE_HIP"}
INVARIANTS Exclusive Versioned Kept Current Sticky
CHECK_DEADLOCK FALSE
