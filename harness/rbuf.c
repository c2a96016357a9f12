/* C02: commands on chain buffers, debug pools and shared frames; a line is a list of commands, each answered with words */
#include "common.h"
#include "ngx_rbuf.h"
#include "ngx_poold.h"
#include "ngx_rtmp.h"
extern ngx_module_t ngx_rtmp_shared_module;

#define N 64
static ngx_chain_t        *cls[N];
static ngx_pool_t         *pools[N];
static ngx_rtmp_frame_t   *frames[N];
static ngx_mpegts_frame_t *mframes[N];
static void               *conf_ctx[8];

static void put_state(ngx_chain_t *(*f)(ngx_http_request_t *, unsigned), unsigned detail)
{
    ngx_http_request_t r;
    ngx_chain_t *cl;
    u_char *p;

    memset(&r, 0, sizeof(r));
    r.pool = ngx_create_pool(4096, &pv_log);
    cl = f(&r, detail);
    for (p = cl->buf->pos; p < cl->buf->last; p++) {
        putchar(*p == '\n' ? '|' : *p == ' ' ? '_' : *p);
    }
    putchar(' ');
    ngx_destroy_pool(r.pool);
}

static void content(ngx_chain_t *cl)
{
    size_t n = 0;
    for (; cl; cl = cl->next) {
        if (cl->buf->pos > cl->buf->last || cl->buf->last > cl->buf->end) { printf("!"); }
        for (u_char *p = cl->buf->pos; p < cl->buf->last; p++, n++) printf("%02x", *p);
        printf("/%d,", (int) (cl->buf->end - cl->buf->start));
    }
    if (n == 0) putchar('-');
}

int main(void)
{
    char *w;
    ngx_uint_t i, j;

    pv_init();
    memset(conf_ctx, 0, sizeof(conf_ctx));
    ngx_rtmp_shared_module.index = 3;
    ngx_core_module_t *cm = ngx_rtmp_shared_module.ctx;
    conf_ctx[3] = cm->create_conf(&pv_cycle);
    cm->init_conf(&pv_cycle, conf_ctx[3]);
    pv_cycle.conf_ctx = (void ****) conf_ctx;

    while (pv_next()) {
        while ((w = pv_word())) {
            long e0 = pv_emerg;
            switch (*w) {
            case 'G': {                                 /* G slot size alloc -> capacity and state */
                i = pv_num(); size_t size = pv_num(); int alloc = pv_num();
                ngx_chain_t *cl = ngx_get_chainbuf_debug(size, alloc, "rb.c", (int) i);
                cls[i] = cl;
                ngx_buf_t *b = cl->buf;
                printf("%d:%d:%d:%d:%d%d%d%d%d%d%d%d%d%d ", (int) (b->end - b->start), b->pos == b->start && b->last == b->start, b->start != NULL, cl->next == NULL,
                       b->temporary, b->memory, b->mmap, b->recycled, b->in_file, b->flush, b->sync, b->last_buf, b->last_in_chain, b->temp_file);
                break; }
            case 'g': {                                 /* g slot: set what a sender may set */
                i = pv_num(); ngx_buf_t *b = cls[i]->buf;
                b->flush = b->last_buf = b->last_in_chain = b->sync = 1;
                break; }
            case 'W': {                                 /* W slot hex: write into the buffer */
                i = pv_num(); size_t n; u_char *d = pv_hex(&n);
                memcpy(cls[i]->buf->start, d, n); cls[i]->buf->last = cls[i]->buf->start + n; free(d);
                break; }
            case 'V': i = pv_num(); pv_puthex(cls[i]->buf->pos, cls[i]->buf->last - cls[i]->buf->pos); putchar(' '); break;
            case 'L': i = pv_num(); j = pv_num(); cls[i]->next = cls[j]; break;
            case 'P': i = pv_num(); { ngx_chain_t *cl = cls[i]; ngx_put_chainbuf_debug(cl, "rb.c", 1); } printf("%ld ", pv_emerg - e0); break;
            case 'Q': { i = pv_num(); ngx_chain_t *cl = cls[i]; ngx_put_chainbufs(cl); printf("%ld ", pv_emerg - e0); break; }
            case 'S': put_state(ngx_rbuf_state, pv_num()); break;
            case 'p': i = pv_num(); pools[i] = ngx_create_pool_debug(1024, &pv_log, "pd.c", (int) i); printf("%d ", pools[i] != NULL); break;
            case 'a': { i = pv_num(); size_t n = pv_num(); u_char *p = ngx_palloc(pools[i], n); memset(p, 1, n); break; }
            case 'd': i = pv_num(); ngx_destroy_pool_debug(pools[i], "pd.c", 0); printf("%ld ", pv_emerg - e0); break;
            case 's': put_state(ngx_poold_state, pv_num()); break;
            case 'F': case 'M': {                       /* F slot chunk mandatory n hex... -> frame content */
                ngx_chain_t *in = NULL, **ll = &in;
                i = pv_num(); size_t chunk = pv_num(); int mand = pv_num(); long n = pv_num();
                u_char *keep[64]; ngx_chain_t *cl; long nk = 0;
                while (n--) {
                    size_t len; keep[nk] = pv_hex(&len);
                    cl = calloc(1, sizeof(*cl)); cl->buf = calloc(1, sizeof(ngx_buf_t));
                    cl->buf->pos = cl->buf->start = keep[nk]; cl->buf->last = cl->buf->end = keep[nk] + len;
                    nk++; *ll = cl; ll = &cl->next;
                }
                if (*w == 'F') {
                    ngx_rtmp_frame_t *f = frames[i] = ngx_rtmp_shared_alloc_frame(chunk, in, mand);
                    printf("%d:%d:%d:%d:%d:", (int) f->ref, (int) f->hdr.timestamp, (int) f->hdr.msid, (int) f->av_header, (int) f->keyframe);
                    content(f->chain);
                    f->hdr.timestamp = 77; f->hdr.msid = 5; f->av_header = 1; f->keyframe = 1;
                } else {
                    ngx_mpegts_frame_t *f = mframes[i] = ngx_rtmp_shared_alloc_mpegts_frame(in, mand);
                    printf("%d:%d:%d:%d:%d:", (int) f->ref, (int) f->pts, (int) f->sid, (int) f->key, (int) f->length);
                    content(f->chain);
                    f->pts = 77; f->sid = 5; f->key = 1; f->length = 9;
                }
                putchar(' ');
                while (nk--) free(keep[nk]);
                while (in) { cl = in->next; free(in->buf); free(in); in = cl; }
                break; }
            case 'X': {                                 /* X slot chunk hex: append */
                i = pv_num(); size_t chunk = pv_num(); size_t len; u_char *d = pv_hex(&len); ngx_chain_t cl; ngx_buf_t b;
                memset(&b, 0, sizeof(b)); b.pos = b.start = d; b.last = b.end = d + len; cl.buf = &b; cl.next = NULL;
                ngx_rtmp_shared_append_chain(frames[i], chunk, &cl, 0); free(d);
                break; }
            case 'A': i = pv_num(); ngx_rtmp_shared_acquire_frame(frames[i]); break;
            case 'B': i = pv_num(); ngx_rtmp_shared_acquire_mpegts_frame(mframes[i]); break;
            case 'f': i = pv_num(); ngx_rtmp_shared_free_frame(frames[i]); break;
            case 'm': i = pv_num(); ngx_rtmp_shared_free_mpegts_frame(mframes[i]); break;
            case 'C': i = pv_num(); content(frames[i]->chain); putchar(' '); break;
            case 'D': i = pv_num(); content(mframes[i]->chain); putchar(' '); break;
            }
        }
        putchar('\n');
    }
    return 0;
}
