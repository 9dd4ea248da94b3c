#pragma once
#include "score/analysis/tracing/common/interface_types/types.h"
