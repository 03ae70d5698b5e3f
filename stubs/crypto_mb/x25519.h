#pragma once
#include <cstdint>
typedef uint32_t mbx_status; typedef unsigned char int8u;
#define MBX_STATUS_OK 0
#define MBX_IS_ANY_OK_STS(s) (1)
#define MBX_GET_STS(s, n) (((s) >> ((n) * 4)) & 0xF)
#define MBX_IS_ANY_OK_STATUS(s) (1)
extern "C" { mbx_status mbx_x25519_public_key_mb8(int8u* const*, const int8u* const*); mbx_status mbx_x25519_mb8(int8u* const*, const int8u* const*, const int8u* const*); }
