#pragma once
#include <sstream>
namespace yacl { inline bool hasAVX2() { return true; } inline bool hasAVX512ifma() { return false; } inline bool hasAES() { return true; } inline bool hasBMI2() { return true; } }
