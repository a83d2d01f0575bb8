// A stand-in for zfp.  Reversible mode stores the doubles; accuracy mode
// quantizes them with an error of at most the tolerance.
#include "zfp/zfp.h"
#include <cmath>
#include <cstdlib>
#include <cstring>

extern "C" {
struct bitstream {
  unsigned char* data;
  size_t bytes;
  size_t position;
};
static size_t Count(zfp_field const* f) {
  return f->nx * (f->ny ? f->ny : 1) * (f->nz ? f->nz : 1) *
         (f->nw ? f->nw : 1);
}
zfp_field* zfp_field_4d(void* p, zfp_type t, size_t nx, size_t ny, size_t nz,
                        size_t nw) {
  auto* f = static_cast<zfp_field*>(std::malloc(sizeof(zfp_field)));
  *f = zfp_field{t, nx, ny, nz, nw, p};
  return f;
}
zfp_field* zfp_field_1d(void* p, zfp_type t, size_t nx) {
  return zfp_field_4d(p, t, nx, 0, 0, 0);
}
zfp_field* zfp_field_2d(void* p, zfp_type t, size_t nx, size_t ny) {
  return zfp_field_4d(p, t, nx, ny, 0, 0);
}
zfp_field* zfp_field_3d(void* p, zfp_type t, size_t nx, size_t ny, size_t nz) {
  return zfp_field_4d(p, t, nx, ny, nz, 0);
}
void zfp_field_free(zfp_field* f) { std::free(f); }
zfp_stream* zfp_stream_open(bitstream* s) {
  auto* z = static_cast<zfp_stream*>(std::malloc(sizeof(zfp_stream)));
  *z = zfp_stream{s, 0, 0};
  return z;
}
void zfp_stream_close(zfp_stream* z) { std::free(z); }
void zfp_stream_set_reversible(zfp_stream* z) { z->reversible = 1; }
double zfp_stream_set_accuracy(zfp_stream* z, double tolerance) {
  int e;
  std::frexp(tolerance, &e);
  z->reversible = 0;
  return z->tolerance = tolerance > 0 ? std::ldexp(1.0, e - 1) : 0;
}
size_t zfp_stream_maximum_size(zfp_stream const*, zfp_field const* f) {
  return 64 + 16 * Count(f);
}
void zfp_stream_set_bit_stream(zfp_stream* z, bitstream* s) { z->stream = s; }
bitstream* stream_open(void* buffer, size_t bytes) {
  auto* s = static_cast<bitstream*>(std::malloc(sizeof(bitstream)));
  *s = bitstream{static_cast<unsigned char*>(buffer), bytes, 0};
  return s;
}
void stream_close(bitstream* s) { std::free(s); }
void* stream_data(bitstream const* s) { return s->data; }
size_t stream_size(bitstream const* s) { return s->position; }
static bool PutBytes(bitstream* s, void const* p, size_t n) {
  if (s->position + n > s->bytes) return false;
  std::memcpy(s->data + s->position, p, n);
  s->position += n;
  return true;
}
static bool GetBytes(bitstream* s, void* p, size_t n) {
  if (s->position + n > s->bytes) return false;
  std::memcpy(p, s->data + s->position, n);
  s->position += n;
  return true;
}
size_t zfp_write_header(zfp_stream* z, zfp_field const*, uint) {
  double const h = z->reversible ? -1 : z->tolerance;
  if (!PutBytes(z->stream, "zfp\005std\0", 8)) return 0;
  if (!PutBytes(z->stream, &h, 8)) return 0;
  return 128;
}
size_t zfp_read_header(zfp_stream* z, zfp_field*, uint) {
  char magic[8];
  double h;
  if (!GetBytes(z->stream, magic, 8) || std::memcmp(magic, "zfp\005std\0", 8))
    return 0;
  if (!GetBytes(z->stream, &h, 8)) return 0;
  z->reversible = h == -1;
  z->tolerance = h;
  return 128;
}
size_t zfp_compress(zfp_stream* z, zfp_field const* f) {
  auto const* d = static_cast<double const*>(f->data);
  size_t const n = Count(f);
  bool exact = z->reversible || !(z->tolerance > 0);
  for (size_t i = 0; !exact && i < n; ++i) {
    exact = !(std::fabs(d[i] / (2 * z->tolerance)) < 0x1p50);
  }
  int64_t const tag = exact;
  if (!PutBytes(z->stream, &tag, 8)) return 0;
  for (size_t i = 0; i < n; ++i) {
    if (exact) {
      if (!PutBytes(z->stream, &d[i], 8)) return 0;
    } else {
      int64_t const q = std::llrint(d[i] / (2 * z->tolerance));
      if (!PutBytes(z->stream, &q, 8)) return 0;
    }
  }
  return z->stream->position;
}
size_t zfp_decompress(zfp_stream* z, zfp_field* f) {
  auto* d = static_cast<double*>(f->data);
  size_t const n = Count(f);
  int64_t tag;
  if (!GetBytes(z->stream, &tag, 8)) return 0;
  for (size_t i = 0; i < n; ++i) {
    if (tag) {
      if (!GetBytes(z->stream, &d[i], 8)) return 0;
    } else {
      int64_t q;
      if (!GetBytes(z->stream, &q, 8)) return 0;
      d[i] = q * (2 * z->tolerance);
    }
  }
  return z->stream->position;
}
}
