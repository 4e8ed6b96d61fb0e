#pragma once
#define BANT_BUILD_VERSION "verif"
