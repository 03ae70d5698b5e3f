#pragma once
#include "arrow/arrow_all.h"
