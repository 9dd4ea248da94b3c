#pragma once
#include "score/utility.hpp"
#include "score/assert.hpp"
