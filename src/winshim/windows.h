// Stand-in for the part of the Windows API that the library uses, so that its Windows code runs here (winshim.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
#define VOID void
#define WINAPI
#define TRUE 1
#define FALSE 0
typedef void * LPVOID; typedef void * PVOID; typedef int BOOL; typedef std::uint32_t DWORD; typedef DWORD * PDWORD; typedef std::size_t SIZE_T;
typedef VOID (WINAPI * LPFIBER_START_ROUTINE)(LPVOID);
#define ERROR_NOT_ENOUGH_MEMORY 8u
#define ERROR_INVALID_PARAMETER 87u
#define ERROR_INVALID_ADDRESS 487u
#define ERROR_ALREADY_FIBER 1280u
#define ERROR_ALREADY_THREAD 1281u
#define MEM_COMMIT 0x1000u
#define MEM_RESERVE 0x2000u
#define MEM_DECOMMIT 0x4000u
#define MEM_RELEASE 0x8000u
#define PAGE_NOACCESS 0x01u
#define PAGE_READONLY 0x02u
#define PAGE_READWRITE 0x04u
#define PAGE_GUARD 0x100u
#define FIBER_FLAG_FLOAT_SWITCH 0x1u
struct SYSTEM_INFO { DWORD dwOemId; DWORD dwPageSize; LPVOID lpMinimumApplicationAddress, lpMaximumApplicationAddress; std::size_t dwActiveProcessorMask; DWORD dwNumberOfProcessors, dwProcessorType, dwAllocationGranularity; };
extern "C" {
LPVOID ConvertThreadToFiber(LPVOID);
LPVOID ConvertThreadToFiberEx(LPVOID, DWORD);
BOOL ConvertFiberToThread();
LPVOID CreateFiber(SIZE_T, LPFIBER_START_ROUTINE, LPVOID);
LPVOID CreateFiberEx(SIZE_T, SIZE_T, DWORD, LPFIBER_START_ROUTINE, LPVOID);
VOID DeleteFiber(LPVOID);
VOID SwitchToFiber(LPVOID);
LPVOID GetCurrentFiber();
LPVOID GetFiberData();
BOOL IsThreadAFiber();
DWORD GetLastError();
VOID SetLastError(DWORD);
LPVOID VirtualAlloc(LPVOID, SIZE_T, DWORD, DWORD);
BOOL VirtualProtect(LPVOID, SIZE_T, DWORD, PDWORD);
BOOL VirtualFree(LPVOID, SIZE_T, DWORD);
VOID GetSystemInfo(SYSTEM_INFO *);
}
// for the harnesses
extern "C++" { namespace winshim { extern long live; extern long fail_at; extern long calls; extern long own_memory; char * stack_top(); } }   // the library includes this file inside extern "C"
