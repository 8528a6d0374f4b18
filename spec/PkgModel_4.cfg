INIT Init
NEXT Next
CONSTANTS MaxLen = 4
 Names = {"SHIVA_ENABLE_CUDA", "SHIVA_ENABLE_HIP"}
INVARIANTS Exclusive Versioned Kept Current Sticky
CHECK_DEADLOCK FALSE
