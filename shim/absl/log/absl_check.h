#pragma once
#include "absl/log/check.h"
#define ABSL_CHECK CHECK
#define ABSL_CHECK_EQ CHECK_EQ
