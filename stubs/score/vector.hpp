#pragma once
#include "score/utility.hpp"
#include "score/memory_resource.hpp"
