#pragma once
#include "apsi/apsi_all.h"
