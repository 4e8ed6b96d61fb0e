#pragma once
#include "absl/strings/string_view.h"
#include "absl/strings/vshim_strings.h"
