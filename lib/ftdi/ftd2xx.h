// Stand-in for the FTDI D2XX header: the declarations the hardware driver uses. The library itself is the bus model of
// the verification suites.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
#define WINAPI
#define FTD2XX_API
#define LIBFT4222_API
typedef unsigned int DWORD, *LPDWORD; typedef unsigned int ULONG, FT_STATUS; typedef void *PVOID, *FT_HANDLE; typedef int BOOL; typedef uint8_t uint8; typedef uint16_t uint16; typedef uint32_t uint32;
enum { FT_OK = 0, FT_OPEN_BY_LOCATION = 4, FT_DEVICE_4222H_0 = 10, FT_DEVICE_4222H_1_2 = 11 };
typedef struct { ULONG Flags, Type, ID; DWORD LocId; char SerialNumber[16], Description[64]; FT_HANDLE ftHandle; } FT_DEVICE_LIST_INFO_NODE;
FT_STATUS FT_CreateDeviceInfoList(LPDWORD); FT_STATUS FT_GetDeviceInfoList(FT_DEVICE_LIST_INFO_NODE *, LPDWORD); FT_STATUS FT_OpenEx(PVOID, DWORD, FT_HANDLE *); FT_STATUS FT_Close(FT_HANDLE); FT_STATUS FT_SetUSBParameters(FT_HANDLE, ULONG, ULONG);
#ifdef __cplusplus
}
#endif
