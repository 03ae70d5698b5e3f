#pragma once
#include "yacl/utils/serializer.h"
