/* Fallback for the header CMake generates next to dpm/detail/config.hpp; used only when that file is absent. */
#pragma once
#define DPM_EXPORT
#define DPM_NO_EXPORT
