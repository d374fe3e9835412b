#pragma once
#include "harness.h"
std::vector<ModeDef> exprModes();
std::vector<ModeDef> infoModes();
