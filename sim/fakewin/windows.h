// What ASM.cpp needs of <windows.h>; VirtualProtect is the simulator's (shim.cpp).
#pragma once
#include <cstddef>
typedef unsigned int DWORD;
typedef DWORD *PDWORD;
typedef void *LPVOID;
typedef void *PVOID;
typedef void *HANDLE;
typedef size_t SIZE_T;
typedef int BOOL;
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#define PAGE_NOACCESS 0x01
#define PAGE_READONLY 0x02
#define PAGE_READWRITE 0x04
#define PAGE_EXECUTE 0x10
#define PAGE_EXECUTE_READ 0x20
#define PAGE_EXECUTE_READWRITE 0x40
extern "C" BOOL VirtualProtect(LPVOID, SIZE_T, DWORD, PDWORD);
extern "C" DWORD GetLastError(void);
extern "C" HANDLE GetCurrentProcess(void);
extern "C" BOOL FlushInstructionCache(HANDLE, const void *, SIZE_T);
