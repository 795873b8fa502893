// Stand-in for the FT4222 support header; see ftd2xx.h.
#pragma once
#include "ftd2xx.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef enum { FT4222_OK, FT4222_DEVICE_NOT_FOUND = 2, FT4222_IO_ERROR = 4 } FT4222_STATUS;
typedef enum { SYS_CLK_60, SYS_CLK_24, SYS_CLK_48, SYS_CLK_80 } FT4222_ClockRate;
typedef enum { SPI_IO_NONE, SPI_IO_SINGLE, SPI_IO_DUAL, SPI_IO_QUAD = 4 } FT4222_SPIMode;
typedef enum { CLK_NONE, CLK_DIV_2, CLK_DIV_4, CLK_DIV_8, CLK_DIV_16, CLK_DIV_32, CLK_DIV_64, CLK_DIV_128, CLK_DIV_256, CLK_DIV_512 } FT4222_SPIClock;
typedef enum { CLK_IDLE_LOW, CLK_IDLE_HIGH } FT4222_SPICPOL; typedef enum { CLK_LEADING, CLK_TRAILING } FT4222_SPICPHA;
typedef enum { DS_4MA, DS_8MA, DS_12MA, DS_16MA } SPI_DrivingStrength; typedef enum { CS_ACTIVE_LOW, CS_ACTIVE_HIGH } SPI_ChipSelect;
typedef enum { GPIO_PORT0, GPIO_PORT1, GPIO_PORT2, GPIO_PORT3 } GPIO_Port; typedef enum { GPIO_OUTPUT, GPIO_INPUT } GPIO_Dir;
enum { START = 2, Repeated_START = 3, STOP = 4 };
FT4222_STATUS FT4222_UnInitialize(FT_HANDLE); FT4222_STATUS FT4222_SetClock(FT_HANDLE, FT4222_ClockRate);
FT4222_STATUS FT4222_SPIMaster_Init(FT_HANDLE, FT4222_SPIMode, FT4222_SPIClock, FT4222_SPICPOL, FT4222_SPICPHA, uint8); FT4222_STATUS FT4222_SPIMaster_SetCS(FT_HANDLE, SPI_ChipSelect); FT4222_STATUS FT4222_SPI_SetDrivingStrength(FT_HANDLE, SPI_DrivingStrength, SPI_DrivingStrength, SPI_DrivingStrength);
FT4222_STATUS FT4222_SPIMaster_MultiReadWrite(FT_HANDLE, uint8 *, uint8 *, uint8, uint16, uint16, uint32 *);
FT4222_STATUS FT4222_I2CMaster_Init(FT_HANDLE, uint32); FT4222_STATUS FT4222_I2CMaster_ReadEx(FT_HANDLE, uint16, uint8, uint8 *, uint16, uint16 *); FT4222_STATUS FT4222_I2CMaster_WriteEx(FT_HANDLE, uint16, uint8, uint8 *, uint16, uint16 *);
FT4222_STATUS FT4222_GPIO_Init(FT_HANDLE, GPIO_Dir[4]); FT4222_STATUS FT4222_GPIO_Read(FT_HANDLE, GPIO_Port, BOOL *); FT4222_STATUS FT4222_GPIO_Write(FT_HANDLE, GPIO_Port, BOOL); FT4222_STATUS FT4222_SetSuspendOut(FT_HANDLE, BOOL); FT4222_STATUS FT4222_SetWakeUpInterrupt(FT_HANDLE, BOOL);
#ifdef __cplusplus
}
#endif
