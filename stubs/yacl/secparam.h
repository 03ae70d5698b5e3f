#pragma once
#define YACL_MODULE_DECLARE(...)
#define YACL_MODULE_SECPARAM_C_UINT(...)
#define YACL_MODULE_SECPARAM_S_UINT(...)
#define YACL_PRINT_MODULE_SUMMARY() ((void)0)
#define SECPARAM_C 128
#define SECPARAM_S 40
#define YACL_MODULE_SECPARAM_C(...) 128
#define YACL_MODULE_SECPARAM_S(...) 40
