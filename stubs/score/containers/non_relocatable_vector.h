#pragma once
#include "score/utility.hpp"
#include "score/containers/dynamic_array.h"
