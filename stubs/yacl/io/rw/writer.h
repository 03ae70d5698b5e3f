#pragma once
#include "yacl/io/rw/reader.h"
