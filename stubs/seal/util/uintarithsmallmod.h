#pragma once
#include "seal/seal.h"
