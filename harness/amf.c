/* C05: AMF0 reading and writing for any element description */
#include "common.h"
#include "ngx_rtmp.h"
#include "ngx_rtmp_amf.h"

static int wr;

typedef struct { ngx_rtmp_amf_elt_t *e; size_t n; } list_t;

static list_t parse(void)
{
    list_t l; size_t i, len;
    l.n = pv_num();
    l.e = calloc(l.n ? l.n : 1, sizeof(ngx_rtmp_amf_elt_t));
    for (i = 0; i < l.n; i++) {
        ngx_rtmp_amf_elt_t *e = &l.e[i];
        char t = *pv_word(); int fl = pv_num();
        e->name.data = pv_hex(&e->name.len);
        switch (t) {
        case 'n': e->type = NGX_RTMP_AMF_NUMBER; goto leaf;
        case 'b': e->type = NGX_RTMP_AMF_BOOLEAN; goto leaf;
        case '1': e->type = NGX_RTMP_AMF_INT8; goto leaf;
        case '2': e->type = NGX_RTMP_AMF_INT16; goto leaf;
        case '4': e->type = NGX_RTMP_AMF_INT32; goto leaf;
        leaf:
            len = t == 'n' ? 8 : t == '2' ? 2 : t == '4' ? 4 : 1;
            if (wr) { e->data = pv_hex(&e->len); } else { e->data = malloc(len); e->len = len; memset(e->data, 0x5a, len); }
            break;
        case 's': e->type = NGX_RTMP_AMF_STRING;
            if (wr) {
                u_char *d = pv_hex(&len); u_char *z = malloc(len + 1);
                memcpy(z, d, len); z[len] = 0; free(d);
                e->data = z; e->len = (fl & 4) ? 0 : len;   /* 4: length taken from the terminator */
                fl &= 3;
            } else { e->len = pv_num(); e->data = malloc(e->len); memset(e->data, 0x5a, e->len); }
            break;
        case 'N': e->type = NGX_RTMP_AMF_NULL; break;
        case 'u': e->type = NGX_RTMP_AMF_ARRAY_NULL; break;
        case 'o': case 'm': case 'a': case 'v': {
            list_t c = parse();
            e->type = t == 'o' ? NGX_RTMP_AMF_OBJECT : t == 'm' ? NGX_RTMP_AMF_MIXED_ARRAY : t == 'a' ? NGX_RTMP_AMF_ARRAY : NGX_RTMP_AMF_VARIANT;
            e->data = c.e; e->len = c.n * sizeof(ngx_rtmp_amf_elt_t);
            break; }
        }
        if (fl & 1) e->type |= NGX_RTMP_AMF_OPTIONAL;
        if (fl & 2) e->type |= NGX_RTMP_AMF_TYPELESS;
    }
    return l;
}

static int group(ngx_rtmp_amf_elt_t *e)
{
    switch (e->type & 0xfff) { case NGX_RTMP_AMF_OBJECT: case NGX_RTMP_AMF_MIXED_ARRAY: case NGX_RTMP_AMF_ARRAY: case NGX_RTMP_AMF_VARIANT_: return 1; }
    return 0;
}

static void out(list_t l)
{
    for (size_t i = 0; i < l.n; i++) {
        ngx_rtmp_amf_elt_t *e = &l.e[i];
        if (group(e)) { list_t c = { e->data, e->len / sizeof(*e) }; out(c); }
        else if (e->data) { putchar(' '); pv_puthex(e->data, e->len); }
    }
}

static void drop(list_t l)
{
    for (size_t i = 0; i < l.n; i++) {
        ngx_rtmp_amf_elt_t *e = &l.e[i];
        free(e->name.data);
        if (group(e)) { list_t c = { e->data, e->len / sizeof(*e) }; drop(c); }
        else free(e->data);
    }
    free(l.e);
}

static size_t bufsz;
static ngx_chain_t *alloc(void *arg)
{
    ngx_chain_t *cl = calloc(1, sizeof(*cl));
    cl->buf = calloc(1, sizeof(ngx_buf_t));
    cl->buf->start = cl->buf->pos = cl->buf->last = malloc(bufsz);
    cl->buf->end = cl->buf->start + bufsz;
    return cl;
}

static void freechain(ngx_chain_t *c)
{
    ngx_chain_t *n;
    for (; c; c = n) { n = c->next; free(c->buf->start); free(c->buf); free(c); }
}

int main(void)
{
    char *w;
    pv_init();
    while (pv_next()) {
        w = pv_word();
        ngx_rtmp_amf_ctx_t ctx;
        memset(&ctx, 0, sizeof(ctx));
        ctx.log = &pv_log;
        if (*w == 'R') {                    /* R npieces hex... desc */
            long n = pv_num(); ngx_chain_t *in = NULL, **ll = &in;
            while (n--) {
                ngx_chain_t *cl = calloc(1, sizeof(*cl)); size_t len;
                cl->buf = calloc(1, sizeof(ngx_buf_t));
                cl->buf->start = cl->buf->pos = pv_hex(&len); cl->buf->last = cl->buf->end = cl->buf->pos + len;
                *ll = cl; ll = &cl->next;
            }
            wr = 0;
            list_t l = parse();
            ctx.link = in;
            ngx_int_t rc = ngx_rtmp_amf_read(&ctx, l.e, l.n);
            printf("%d", (int) rc);
            out(l);
            drop(l); freechain(in);
        } else {                            /* W bufsize first(0/1) desc */
            bufsz = pv_num(); int first = pv_num();
            wr = 1;
            list_t l = parse();
            ngx_chain_t *pre = NULL;
            ctx.alloc = alloc;
            if (first) { ctx.link = pre = alloc(NULL); }
            ngx_int_t rc = ngx_rtmp_amf_write(&ctx, l.e, l.n);
            printf("%d ", (int) rc);
            if (pre && ctx.first != pre) printf("LOST ");
            for (ngx_chain_t *c = ctx.first; c; c = c->next) { for (u_char *p = c->buf->pos; p < c->buf->last; p++) printf("%02x", *p); if (c->next && c->buf->last != c->buf->end) printf("GAP"); }
            putchar('.');
            drop(l); freechain(pre ? pre : ctx.first);
        }
        putchar('\n');
    }
    return 0;
}
