#pragma once
#include "yacl/base/byte_container_view.h"
