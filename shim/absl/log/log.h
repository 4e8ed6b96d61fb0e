#pragma once
#include "absl/log/check.h"
#define VERIF_LOG_INFO std::cerr
#define VERIF_LOG_WARNING std::cerr
#define VERIF_LOG_ERROR std::cerr
#define VERIF_LOG_FATAL ::verif_shim::Fatal(__FILE__, __LINE__, "LOG(FATAL)").stream()
#define LOG(x) VERIF_LOG_##x
