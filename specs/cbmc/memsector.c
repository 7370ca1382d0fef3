/* Contracts of the index-image file layer; the real sources are included below, unchanged. */
#include <stdio.h>
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdbool.h>
#include "common/utils/mmap.h"
#include "mws/index/memsector.h"
#define MAXFILE (1ULL << 40)

/* ---- ghost record of what the environment was asked to do */
const char *g_crc_buf; size_t g_crc_size; uint32_t g_crc_init, g_crc_ret; unsigned g_crc_calls;
unsigned g_loads, g_unloads;
unsigned g_writes, g_closes; size_t g_write_len; const void *g_write_buf; bool g_write_failed;
bool g_at_start; uint64_t g_hdr_root;

/* ---- assumed contracts on the environment */
int mmap_load(const char* path, int flags, mmap_handle_t* mmap_handle)
__CPROVER_requires(__CPROVER_w_ok(mmap_handle, sizeof(*mmap_handle)))
__CPROVER_assigns(*mmap_handle, g_loads)
__CPROVER_ensures(__CPROVER_return_value == 0 || __CPROVER_return_value == -1)
__CPROVER_ensures(__CPROVER_return_value == 0 ==> (mmap_handle->size >= 1 && mmap_handle->size <= MAXFILE && __CPROVER_is_fresh(mmap_handle->start_addr, mmap_handle->size)))
__CPROVER_ensures(g_loads == __CPROVER_old(g_loads) + (__CPROVER_return_value == 0 ? 1 : 0));
int mmap_unload(mmap_handle_t* mmap_handle)
__CPROVER_assigns(g_unloads)
__CPROVER_ensures(g_unloads == __CPROVER_old(g_unloads) + 1);
int mmap_remove(mmap_handle_t* mmap_handle) __CPROVER_requires(1) __CPROVER_assigns() __CPROVER_ensures(1);
uint32_t crc32(uint32_t crc, const void *buf, size_t size)
__CPROVER_requires(__CPROVER_r_ok(buf, size))
__CPROVER_assigns(g_crc_buf, g_crc_size, g_crc_init, g_crc_ret, g_crc_calls)
__CPROVER_ensures(g_crc_buf == buf && g_crc_size == size && g_crc_init == crc && g_crc_ret == __CPROVER_return_value && g_crc_calls == __CPROVER_old(g_crc_calls) + 1);
size_t fwrite(const void *ptr, size_t size, size_t nmemb, FILE *stream)
__CPROVER_requires(__CPROVER_r_ok(ptr, size * nmemb))
__CPROVER_requires(stream != NULL)
__CPROVER_assigns(g_writes, g_write_len, g_write_buf, g_write_failed, g_hdr_root)
__CPROVER_ensures(size * nmemb == sizeof(memsector_header_t) ==> g_hdr_root == ((const memsector_header_t*)ptr)->root_off)
__CPROVER_ensures(__CPROVER_return_value <= nmemb)
__CPROVER_ensures(g_writes == __CPROVER_old(g_writes) + 1 && g_write_len == size * nmemb && g_write_buf == ptr)
__CPROVER_ensures(g_write_failed == (__CPROVER_old(g_write_failed) || __CPROVER_return_value < nmemb));
int fseek(FILE *stream, long off, int whence)
__CPROVER_requires(stream != NULL)
__CPROVER_assigns(g_at_start)
__CPROVER_ensures(g_at_start == (__CPROVER_return_value == 0 && off == 0 && whence == SEEK_SET));
int ferror(FILE *stream)
__CPROVER_requires(stream != NULL)
__CPROVER_assigns()
__CPROVER_ensures((__CPROVER_return_value != 0) == g_write_failed);
bool g_close_failed;
int fclose(FILE *stream)
__CPROVER_requires(stream != NULL)
__CPROVER_assigns(g_closes, g_close_failed)
__CPROVER_ensures(g_closes == __CPROVER_old(g_closes) + 1)
__CPROVER_ensures(g_close_failed == (__CPROVER_return_value != 0));
FILE *fopen(const char *path, const char *mode)
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == NULL || __CPROVER_is_fresh(__CPROVER_return_value, 1));
void perror(const char *s) __CPROVER_requires(1) __CPROVER_assigns() __CPROVER_ensures(1);
char *strerror(int e) __CPROVER_requires(1) __CPROVER_assigns() __CPROVER_ensures(1);
/* log messages are dropped (no state depends on them) */
#define printf(...) ((void)0)
#define fprintf(...) ((void)0)

/* ---- contracts of the functions under proof */
#define HDR ((uint64_t)sizeof(memsector_header_t))
#define M ((const memsector_header_t*)ms->mmap_handle.start_addr)
int memsector_load(memsector_handle_t* ms, const char* path)
__CPROVER_requires(__CPROVER_is_fresh(ms, sizeof(*ms)))
__CPROVER_requires(__CPROVER_is_fresh(path, 1))
__CPROVER_requires(g_loads == 0 && g_unloads == 0 && g_crc_calls == 0)
__CPROVER_assigns(*ms, g_loads, g_unloads, g_crc_buf, g_crc_size, g_crc_init, g_crc_ret, g_crc_calls)
/* an image is accepted only with the right kind, version, extent, root and checksum */
__CPROVER_ensures(__CPROVER_return_value == 0 || __CPROVER_return_value == -1)
__CPROVER_ensures(__CPROVER_return_value == 0 ==> ms->ms == M)
__CPROVER_ensures(__CPROVER_return_value == 0 ==> ms->mmap_handle.size >= HDR)
__CPROVER_ensures(__CPROVER_return_value == 0 ==> M->magic == 0x88CAFE88U)
__CPROVER_ensures(__CPROVER_return_value == 0 ==> M->version == 1)
__CPROVER_ensures(__CPROVER_return_value == 0 ==> M->index_size <= ms->mmap_handle.size - HDR)
__CPROVER_ensures(__CPROVER_return_value == 0 ==> (M->root_off >= HDR / 4 && M->root_off < (HDR + M->index_size) / 4))
/* the checksum covers exactly the index data */
__CPROVER_ensures(__CPROVER_return_value == 0 ==> (g_crc_calls == 1 && g_crc_init == 0 && g_crc_buf == (const char*)M + HDR && g_crc_size == M->index_size && g_crc_ret == M->checksum))
/* no mapping is leaked, none is dropped while in use */
__CPROVER_ensures(__CPROVER_return_value == 0 ==> g_unloads == 0)
__CPROVER_ensures(__CPROVER_return_value == -1 ==> g_unloads == g_loads);

int memsector_create(memsector_writer_t* mswr, const char* path)
__CPROVER_requires(__CPROVER_is_fresh(mswr, sizeof(*mswr)))
__CPROVER_requires(__CPROVER_is_fresh(path, 1))
__CPROVER_requires(g_writes == 0 && g_closes == 0 && g_write_failed == 0)
__CPROVER_assigns(*mswr, g_writes, g_write_len, g_write_buf, g_write_failed, g_hdr_root, g_closes, g_close_failed)
__CPROVER_ensures(__CPROVER_return_value == 0 || __CPROVER_return_value == -1)
__CPROVER_ensures(__CPROVER_return_value == 0 ==> (mswr->file != NULL && mswr->offset == HDR && mswr->ms.magic == 0x88CAFE88U && mswr->ms.version == 1 && mswr->ms.checksum == 0))
/* what is written first is refused by memsector_load until memsector_save replaces it */
__CPROVER_ensures(__CPROVER_return_value == 0 ==> (mswr->ms.root_off == 0 && g_hdr_root == 0))
__CPROVER_ensures(__CPROVER_return_value == 0 ==> (mswr->inode.entries_promised == 0 && mswr->inode.entries_delivered == 0))
__CPROVER_ensures(__CPROVER_return_value == 0 ==> (g_writes == 1 && g_write_len == HDR && !g_write_failed && g_closes == 0))
__CPROVER_ensures(__CPROVER_return_value == -1 ==> g_closes == g_writes);

void memsector_write(memsector_writer_t* msw, void* data, size_t size)
__CPROVER_requires(__CPROVER_is_fresh(msw, sizeof(*msw)))
__CPROVER_requires(size >= 1 && size <= 4096 && __CPROVER_is_fresh(data, size))
__CPROVER_requires(msw->file != NULL && msw->offset < MAXFILE)
__CPROVER_requires(g_writes == 0 && g_crc_calls == 0)
__CPROVER_assigns(msw->offset, msw->ms.checksum, g_writes, g_write_len, g_write_buf, g_write_failed, g_hdr_root, g_crc_buf, g_crc_size, g_crc_init, g_crc_ret, g_crc_calls)
/* exactly the given bytes go to the file, the offset and the running checksum */
__CPROVER_ensures(g_writes == 1 && g_write_len == size && g_write_buf == data)
__CPROVER_ensures(msw->offset == __CPROVER_old(msw->offset) + size)
__CPROVER_ensures(g_crc_calls == 1 && g_crc_init == __CPROVER_old(msw->ms.checksum) && g_crc_buf == data && g_crc_size == size && msw->ms.checksum == g_crc_ret);

int memsector_save(memsector_writer_t* msw, memsector_long_off_t index_off)
__CPROVER_requires(__CPROVER_is_fresh(msw, sizeof(*msw)))
__CPROVER_requires(msw->file != NULL && msw->offset >= HDR)
__CPROVER_requires(g_writes == 0 && g_closes == 0)
__CPROVER_assigns(*msw, g_writes, g_write_len, g_write_buf, g_write_failed, g_hdr_root, g_closes, g_close_failed, g_at_start)
__CPROVER_ensures(msw->ms.root_off == index_off && msw->ms.index_size == msw->offset - HDR)
__CPROVER_ensures(msw->ms.checksum == __CPROVER_old(msw->ms.checksum) && msw->ms.magic == __CPROVER_old(msw->ms.magic) && msw->ms.version == __CPROVER_old(msw->ms.version))
__CPROVER_ensures(g_closes == 1)
/* success is reported only when every write since creation, the header and the close succeeded */
__CPROVER_ensures(__CPROVER_return_value == 0 ==> (!__CPROVER_old(g_write_failed) && !g_write_failed && !g_close_failed && g_at_start && g_writes == 1 && g_write_len == HDR && g_write_buf == &msw->ms && g_hdr_root == index_off));

#include "mws/index/memsector.c"


#define V(c, w) if (c) __CPROVER_assert(0, "VACUITY " w)
void h_load(void) { memsector_handle_t* ms; const char* path; g_loads = g_unloads = g_crc_calls = 0; int r = memsector_load(ms, path); V(r == 0, "accepted"); V(r != 0, "rejected"); }
void h_create(void) { memsector_writer_t* w; const char* path; g_writes = g_closes = 0; g_write_failed = 0; int r = memsector_create(w, path); V(r == 0, "created"); V(r != 0, "not created"); }
void vp_touch(void) { FILE* f = fopen("a", "w"); char b[1]; fwrite(b, 1, 1, f); fseek(f, 0, 0); ferror(f); fclose(f); perror("x"); strerror(1); mmap_handle_t m; mmap_load("a", 0, &m); mmap_unload(&m); mmap_remove(&m); crc32(0, b, 1); }
bool nondet_bool(void); uint64_t nondet_u64(void); size_t nondet_size(void);
void h_write(void) { memsector_writer_t* w; void* d; size_t n; g_writes = g_crc_calls = 0; memsector_write(w, d, n); V(1, "returns"); }
void h_save(void) { memsector_writer_t* w; memsector_long_off_t o; g_writes = g_closes = 0; g_write_failed = nondet_bool(); int r = memsector_save(w, o); V(r == 0, "saved"); V(r != 0, "failed"); }
