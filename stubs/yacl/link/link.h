#pragma once
#include "yacl/link/context.h"
#include "yacl/link/algorithm/barrier.h"
#include "yacl/link/factory.h"
