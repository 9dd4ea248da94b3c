#pragma once
#include "score/utility.hpp"
namespace score::mw::log { }
