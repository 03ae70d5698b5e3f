#pragma once
#include <cstdint>
typedef uint64_t digit_t; typedef digit_t felm_t[2]; typedef felm_t f2elm_t[2]; typedef struct { f2elm_t x; f2elm_t y; } point_affine; typedef point_affine point_t[1]; typedef struct { f2elm_t x, y, z, ta, tb; } point_extproj; typedef point_extproj point_extproj_t[1]; typedef enum { ECCRYPTO_ERROR, ECCRYPTO_SUCCESS, ECCRYPTO_ERROR_UNKNOWN, ECCRYPTO_ERROR_INVALID_PARAMETER } ECCRYPTO_STATUS;
extern "C" { bool ecc_mul(point_t, digit_t*, point_t, bool); bool ecc_mul_fixed(digit_t*, point_t); ECCRYPTO_STATUS HashToCurve(f2elm_t, point_t); void encode(point_t, unsigned char*); ECCRYPTO_STATUS decode(const unsigned char*, point_t); void mod1271(felm_t); void eccset(point_t); bool ecc_point_validate(point_extproj_t); void modulo_order(digit_t*, digit_t*); void to_Montgomery(const digit_t*, digit_t*); void from_Montgomery(const digit_t*, digit_t*); void Montgomery_inversion_mod_order(const digit_t*, digit_t*); }
