#pragma once
#include "score/filesystem/i_standard_filesystem.h"
