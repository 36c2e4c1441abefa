/* Calls the library the way a C program does: through its public header. The harness
 * passes indices of the header's enumerators, in the documented order, so that a header
 * that disagrees with the library is noticed. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <dcv_color_primitives.h>

static const DcpPixelFormat PF[] = {
    DCP_PIXEL_FORMAT_ARGB, DCP_PIXEL_FORMAT_BGRA, DCP_PIXEL_FORMAT_BGR,
    DCP_PIXEL_FORMAT_RGBA, DCP_PIXEL_FORMAT_RGB,  DCP_PIXEL_FORMAT_I444,
    DCP_PIXEL_FORMAT_I422, DCP_PIXEL_FORMAT_I420, DCP_PIXEL_FORMAT_NV12,
};

static const DcpColorSpace CS[] = {
    DCP_COLOR_SPACE_RGB,     DCP_COLOR_SPACE_BT601,   DCP_COLOR_SPACE_BT709,
    DCP_COLOR_SPACE_BT601FR, DCP_COLOR_SPACE_BT709FR,
};

size_t dcpv_format_size(void) { return sizeof(DcpImageFormat); }
size_t dcpv_error_size(void) { return sizeof(DcpErrorKind); }
size_t dcpv_stride_auto(void) { return DCP_STRIDE_AUTO; }

/* Indices past the tables are written as they are: values that are in no enumeration */
void dcpv_format(void *at, uint32_t pf, uint32_t cs, uint32_t planes)
{
    DcpImageFormat f;
    memset(&f, 0, sizeof f);
    f.pixel_format = pf < 9 ? PF[pf] : (DcpPixelFormat)pf;
    f.color_space = cs < 5 ? CS[cs] : (DcpColorSpace)cs;
    f.num_planes = planes;
    memcpy(at, &f, sizeof f);
}

/* 0: ok, 1: error, 2: neither */
static int result(DcpResult r)
{
    return r == DCP_RESULT_OK ? 0 : r == DCP_RESULT_ERR ? 1 : 2;
}

/* 0..2: the documented kinds, 3: neither */
int dcpv_error(const void *e)
{
    DcpErrorKind k;
    memcpy(&k, e, sizeof k);
    switch (k) {
    case DCP_ERROR_KIND_INVALID_VALUE: return 0;
    case DCP_ERROR_KIND_INVALID_OPERATION: return 1;
    case DCP_ERROR_KIND_NOT_ENOUGH_DATA: return 2;
    }
    return 3;
}

int dcpv_convert(uint32_t w, uint32_t h, const void *sf, const size_t *ss,
                 const uint8_t *const *sb, const void *df, const size_t *ds,
                 uint8_t *const *db, void *error)
{
    return result(dcp_convert_image(w, h, sf, ss, sb, df, ds, db, error));
}

int dcpv_sizes(uint32_t w, uint32_t h, const void *f, const size_t *st, size_t *out, void *error)
{
    return result(dcp_get_buffers_size(w, h, f, st, out, error));
}

char *dcpv_describe(void) { return dcp_describe_acceleration(); }
void dcpv_unref(char *s) { dcp_unref_string(s); }
