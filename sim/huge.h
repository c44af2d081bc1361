#pragma once
#include "ops.h"
const std::vector<std::pair<std::string, OpDef>> &huge_ops();
void print_mids();
