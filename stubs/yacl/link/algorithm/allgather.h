#pragma once
#include "yacl/link/algorithm/barrier.h"
