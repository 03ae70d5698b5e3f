#pragma once
#include "rapidjson/document.h"
