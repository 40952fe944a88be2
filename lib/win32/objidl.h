#ifndef VP_OBJIDL_H
#define VP_OBJIDL_H
#include <windows.h>
typedef struct IStream IStream; typedef struct IStream ISequentialStream; typedef IStream* LPSTREAM;
typedef struct { LPOLESTR pwcsName; DWORD type; ULARGE_INTEGER cbSize; FILETIME mtime, ctime, atime; DWORD grfMode; DWORD grfLocksSupported; CLSID clsid; DWORD grfStateBits; DWORD reserved; } STATSTG;
typedef struct IStreamVtbl {
    HRESULT (*QueryInterface)(IStream*, REFIID, void**); ULONG (*AddRef)(IStream*); ULONG (*Release)(IStream*);
    HRESULT (*Read)(IStream*, void*, ULONG, ULONG*); HRESULT (*Write)(IStream*, const void*, ULONG, ULONG*);
    HRESULT (*Seek)(IStream*, LARGE_INTEGER, DWORD, ULARGE_INTEGER*); HRESULT (*SetSize)(IStream*, ULARGE_INTEGER); HRESULT (*CopyTo)(IStream*, IStream*, ULARGE_INTEGER, ULARGE_INTEGER*, ULARGE_INTEGER*);
    HRESULT (*Commit)(IStream*, DWORD); HRESULT (*Revert)(IStream*); HRESULT (*LockRegion)(IStream*, ULARGE_INTEGER, ULARGE_INTEGER, DWORD); HRESULT (*UnlockRegion)(IStream*, ULARGE_INTEGER, ULARGE_INTEGER, DWORD);
    HRESULT (*Stat)(IStream*, STATSTG*, DWORD); HRESULT (*Clone)(IStream*, IStream**);
} IStreamVtbl;
struct IStream { IStreamVtbl* lpVtbl; };
#define IStream_QueryInterface(s, a, b) ((s)->lpVtbl->QueryInterface(s, a, b))
#define IStream_AddRef(s) ((s)->lpVtbl->AddRef(s))
#define IStream_Release(s) ((s)->lpVtbl->Release(s))
#define IStream_Read(s, a, b, c) ((s)->lpVtbl->Read(s, a, b, c))
#define IStream_Write(s, a, b, c) ((s)->lpVtbl->Write(s, a, b, c))
#define IStream_Seek(s, a, b, c) ((s)->lpVtbl->Seek(s, a, b, c))
#define IStream_SetSize(s, a) ((s)->lpVtbl->SetSize(s, a))
#define IStream_CopyTo(s, a, b, c, d) ((s)->lpVtbl->CopyTo(s, a, b, c, d))
#define IStream_Commit(s, a) ((s)->lpVtbl->Commit(s, a))
#define IStream_Revert(s) ((s)->lpVtbl->Revert(s))
#define IStream_LockRegion(s, a, b, c) ((s)->lpVtbl->LockRegion(s, a, b, c))
#define IStream_UnlockRegion(s, a, b, c) ((s)->lpVtbl->UnlockRegion(s, a, b, c))
#define IStream_Stat(s, a, b) ((s)->lpVtbl->Stat(s, a, b))
#define IStream_Clone(s, a) ((s)->lpVtbl->Clone(s, a))
typedef enum { STREAM_SEEK_SET = 0, STREAM_SEEK_CUR = 1, STREAM_SEEK_END = 2 } STREAM_SEEK;
typedef enum { STGTY_STORAGE = 1, STGTY_STREAM = 2, STGTY_LOCKBYTES = 3, STGTY_PROPERTY = 4 } STGTY;
typedef enum { STATFLAG_DEFAULT = 0, STATFLAG_NONAME = 1, STATFLAG_NOOPEN = 2 } STATFLAG;
typedef enum { LOCK_WRITE = 1, LOCK_EXCLUSIVE = 2, LOCK_ONLYONCE = 4 } LOCKTYPE;
#define STGM_READ 0
#define STGM_WRITE 1
#define STGM_READWRITE 2
#define STGM_SHARE_DENY_WRITE 0x20
#define STGM_SHARE_DENY_NONE 0x40
#define STGM_SHARE_EXCLUSIVE 0x10
#define STGM_DIRECT 0
#endif
