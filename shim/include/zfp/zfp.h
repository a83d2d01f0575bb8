/* Stand-in for zfp (absent here): same calls, a much simpler code. */
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef unsigned int uint;
#define ZFP_VERSION 0x0055
#define ZFP_CODEC 5
#define ZFP_HEADER_MAGIC 0x1u
#define ZFP_HEADER_META 0x2u
#define ZFP_HEADER_MODE 0x4u
typedef enum { zfp_type_none = 0, zfp_type_double = 4 } zfp_type;
typedef struct { zfp_type type; size_t nx, ny, nz, nw; void* data; } zfp_field;
typedef struct bitstream bitstream;
typedef struct { bitstream* stream; int reversible; double tolerance; }
    zfp_stream;
zfp_field* zfp_field_1d(void* p, zfp_type t, size_t nx);
zfp_field* zfp_field_2d(void* p, zfp_type t, size_t nx, size_t ny);
zfp_field* zfp_field_3d(void* p, zfp_type t, size_t nx, size_t ny, size_t nz);
zfp_field* zfp_field_4d(void* p, zfp_type t, size_t nx, size_t ny, size_t nz,
                        size_t nw);
void zfp_field_free(zfp_field* f);
zfp_stream* zfp_stream_open(bitstream* s);
void zfp_stream_close(zfp_stream* z);
void zfp_stream_set_reversible(zfp_stream* z);
double zfp_stream_set_accuracy(zfp_stream* z, double tolerance);
size_t zfp_stream_maximum_size(zfp_stream const* z, zfp_field const* f);
void zfp_stream_set_bit_stream(zfp_stream* z, bitstream* s);
bitstream* stream_open(void* buffer, size_t bytes);
void stream_close(bitstream* s);
void* stream_data(bitstream const* s);
size_t stream_size(bitstream const* s);
size_t zfp_write_header(zfp_stream* z, zfp_field const* f, uint mask);
size_t zfp_read_header(zfp_stream* z, zfp_field* f, uint mask);
size_t zfp_compress(zfp_stream* z, zfp_field const* f);
size_t zfp_decompress(zfp_stream* z, zfp_field* f);
#ifdef __cplusplus
}
#endif
