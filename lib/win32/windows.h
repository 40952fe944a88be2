/* Windows types (LLP64) as far as win32/memstream.c and likely rewrites of it need them; the functions are the environment model of the harness */
#ifndef VP_WINDOWS_H
#define VP_WINDOWS_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
typedef uint8_t BYTE; typedef uint16_t WORD; typedef uint32_t DWORD; typedef int32_t LONG; typedef uint32_t ULONG; typedef int32_t INT; typedef uint32_t UINT; typedef int32_t BOOL; typedef uint16_t WCHAR; typedef WCHAR OLECHAR; typedef int64_t LONGLONG; typedef uint64_t ULONGLONG; typedef uint64_t DWORDLONG; typedef int64_t LONG64; typedef uint64_t ULONG64; typedef uint64_t ULONG_PTR; typedef int64_t LONG_PTR; typedef size_t SIZE_T; typedef uint8_t UCHAR; typedef uint16_t USHORT; typedef int64_t INT64; typedef uint64_t UINT64; typedef uint32_t DWORD32; typedef uint64_t DWORD64; typedef uint64_t DWORD_PTR; typedef char CHAR; typedef int16_t SHORT;
typedef void* PVOID; typedef void* LPVOID; typedef const void* LPCVOID; typedef BYTE* LPBYTE; typedef BYTE* PBYTE; typedef WCHAR* LPWSTR; typedef const WCHAR* LPCWSTR; typedef OLECHAR* LPOLESTR; typedef void* HANDLE; typedef void* HINSTANCE; typedef void* HMODULE; typedef void* HRSRC; typedef void* HGLOBAL; typedef LONG HRESULT;
#define VOID void
#define CONST const
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#define WINAPI
#define STDMETHODCALLTYPE
#define STDAPICALLTYPE
#define CALLBACK
#define MAXDWORD 0xffffffffu
#define MAXULONG 0xffffffffu
#define MAXLONG 0x7fffffff
#define MAXLONGLONG 0x7fffffffffffffffLL
#ifndef ULONG_MAX
#include <limits.h>
#endif
#undef ULONG_MAX
#undef LONG_MAX
#undef LONG_MIN
#define ULONG_MAX 0xffffffffu
#define LONG_MAX 0x7fffffff
#define LONG_MIN (-0x7fffffff - 1)
typedef union { struct { DWORD LowPart; LONG HighPart; }; struct { DWORD LowPart; LONG HighPart; } u; LONGLONG QuadPart; } LARGE_INTEGER;
typedef union { struct { DWORD LowPart; DWORD HighPart; }; struct { DWORD LowPart; DWORD HighPart; } u; ULONGLONG QuadPart; } ULARGE_INTEGER;
typedef struct { DWORD dwLowDateTime, dwHighDateTime; } FILETIME;
typedef struct { uint32_t Data1; uint16_t Data2, Data3; uint8_t Data4[8]; } GUID;
typedef GUID IID; typedef GUID CLSID; typedef const IID* REFIID; typedef const GUID* REFGUID;
static inline int vp_guid_eq(const GUID* a, const GUID* b) { int i, r = (a->Data1 == b->Data1) & (a->Data2 == b->Data2) & (a->Data3 == b->Data3); for (i = 0; i < 8; i++) r &= a->Data4[i] == b->Data4[i]; return r; }
#define IsEqualGUID(a, b) vp_guid_eq(a, b)
#define IsEqualIID(a, b) vp_guid_eq(a, b)
#define InlineIsEqualGUID(a, b) vp_guid_eq(a, b)
extern const IID IID_IUnknown, IID_IDispatch, IID_ISequentialStream, IID_IStream, IID_IPersist, IID_IMarshal, IID_IStorage, IID_IAgileObject, IID_ILockBytes, IID_IClassFactory, IID_INoMarshal;
#define S_OK ((HRESULT)0)
#define S_FALSE ((HRESULT)1)
#define E_NOTIMPL ((HRESULT)0x80004001)
#define E_NOINTERFACE ((HRESULT)0x80004002)
#define E_POINTER ((HRESULT)0x80004003)
#define E_ABORT ((HRESULT)0x80004004)
#define E_FAIL ((HRESULT)0x80004005)
#define E_UNEXPECTED ((HRESULT)0x8000FFFF)
#define E_ACCESSDENIED ((HRESULT)0x80070005)
#define E_OUTOFMEMORY ((HRESULT)0x8007000E)
#define E_INVALIDARG ((HRESULT)0x80070057)
#define STG_E_INVALIDFUNCTION ((HRESULT)0x80030001)
#define STG_E_ACCESSDENIED ((HRESULT)0x80030005)
#define STG_E_INSUFFICIENTMEMORY ((HRESULT)0x80030008)
#define STG_E_INVALIDPOINTER ((HRESULT)0x80030009)
#define STG_E_SEEKERROR ((HRESULT)0x80030019)
#define STG_E_WRITEFAULT ((HRESULT)0x8003001D)
#define STG_E_READFAULT ((HRESULT)0x8003001E)
#define STG_E_INVALIDPARAMETER ((HRESULT)0x80030057)
#define STG_E_MEDIUMFULL ((HRESULT)0x80030070)
#define STG_E_INVALIDFLAG ((HRESULT)0x800300FF)
#define STG_E_NOTIMPLEMENTED E_NOTIMPL
#define STG_E_REVERTED ((HRESULT)0x80030102)
#define SUCCEEDED(hr) (((HRESULT)(hr)) >= 0)
#define FAILED(hr) (((HRESULT)(hr)) < 0)
#define FACILITY_WIN32 7
#define HRESULT_FROM_WIN32(x) ((HRESULT)(x) <= 0 ? ((HRESULT)(x)) : ((HRESULT)(((x) & 0x0000FFFF) | (FACILITY_WIN32 << 16) | 0x80000000)))
#define ERROR_SUCCESS 0L
#define NO_ERROR 0L
#define ERROR_FILE_NOT_FOUND 2L
#define ERROR_NOT_ENOUGH_MEMORY 8L
#define ERROR_OUTOFMEMORY 14L
#define ERROR_INVALID_DATA 13L
#define ERROR_INVALID_PARAMETER 87L
#define ERROR_RESOURCE_DATA_NOT_FOUND 1812L
#define ERROR_RESOURCE_TYPE_NOT_FOUND 1813L
#define ERROR_RESOURCE_NAME_NOT_FOUND 1814L
#define FIELD_OFFSET(t, f) ((LONG)offsetof(t, f))
#define CONTAINING_RECORD(a, t, f) ((t*)((char*)(a) - offsetof(t, f)))
#define UNREFERENCED_PARAMETER(p) ((void)(p))
#define CopyMemory(d, s, n) memcpy(d, s, n)
#define MoveMemory(d, s, n) memmove(d, s, n)
#define FillMemory(d, n, c) memset(d, c, n)
#define ZeroMemory(d, n) memset(d, 0, n)
#define RtlCopyMemory CopyMemory
#define RtlZeroMemory ZeroMemory
#define SecureZeroMemory ZeroMemory
/* environment, defined by the harness */
LONG InterlockedIncrement(LONG volatile* p); LONG InterlockedDecrement(LONG volatile* p); LONG InterlockedExchangeAdd(LONG volatile* p, LONG v); LONG InterlockedAdd(LONG volatile* p, LONG v); LONG InterlockedExchange(LONG volatile* p, LONG v); LONG InterlockedCompareExchange(LONG volatile* p, LONG v, LONG old);
DWORD GetLastError(void); void SetLastError(DWORD e);
HRSRC FindResourceW(HMODULE m, LPCWSTR name, LPCWSTR type); DWORD SizeofResource(HMODULE m, HRSRC r); HGLOBAL LoadResource(HMODULE m, HRSRC r); LPVOID LockResource(HGLOBAL g);
#define _InterlockedIncrement InterlockedIncrement
#define _InterlockedDecrement InterlockedDecrement
#define UnlockResource(g) 0
#define FreeResource(g) 0
#define HEAP_ZERO_MEMORY 8
#define GetProcessHeap() ((HANDLE)1)
#define HeapAlloc(h, f, n) (((f) & HEAP_ZERO_MEMORY) ? calloc(1, n) : malloc(n))
#define HeapFree(h, f, p) (free(p), TRUE)
#define CoTaskMemAlloc(n) malloc(n)
#define CoTaskMemFree(p) free(p)
#endif
