/* An nginx module that drives the HTTP client under test: GET /client?u=<escaped url>&m=<method>&k=<keep>&d=<detach>
 * fetches u and reports what its read handler was told, as "key value" lines and the body. */
#include <ngx_config.h>
#include <ngx_core.h>
#include <ngx_http.h>
#include "ngx_http_client.h"

typedef struct {
    ngx_http_request_t  *r;
    ngx_http_request_t  *hcr;
    ngx_str_t            url;
    ngx_int_t            keep, detach;
    ngx_uint_t           calls;
    unsigned             headers:1;
    unsigned             finished:1;
    unsigned             sent:1;
    u_char              *body;
    size_t               len, cap;
    ngx_str_t            hdr;
} pv_t;

extern ngx_module_t ngx_http_pv_client_module;
static char *pv_set(ngx_conf_t *cf, ngx_command_t *cmd, void *conf);

static ngx_command_t pv_commands[] = {
    { ngx_string("pv_client"), NGX_HTTP_LOC_CONF|NGX_CONF_NOARGS, pv_set, 0, 0, NULL },
    ngx_null_command
};
static ngx_http_module_t pv_ctx = { NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL };
ngx_module_t ngx_http_pv_client_module = {
    NGX_MODULE_V1, &pv_ctx, pv_commands, NGX_HTTP_MODULE, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NGX_MODULE_V1_PADDING
};
ngx_module_t *ngx_modules[] = { &ngx_http_pv_client_module, NULL };
char *ngx_module_names[] = { "ngx_http_pv_client_module", NULL };
char *ngx_module_order[] = { NULL };

static void
pv_add(pv_t *p, u_char *d, size_t n)
{
    u_char *b;
    if (p->len + n > p->cap) {
        p->cap = (p->len + n) * 2 + 64;
        b = ngx_palloc(p->r->pool, p->cap);
        ngx_memcpy(b, p->body, p->len);
        p->body = b;
    }
    ngx_memcpy(p->body + p->len, d, n);
    p->len += n;
}

static void
pv_reply(pv_t *p, const char *end)
{
    ngx_http_request_t  *r = p->r;
    ngx_buf_t           *b;
    ngx_chain_t          out;
    size_t               n;

    p->finished = 1;
    if (p->sent) {
        return;
    }
    p->sent = 1;
    n = 256 + p->hdr.len + p->len;
    b = ngx_create_temp_buf(r->pool, n);
    b->last = ngx_slprintf(b->last, b->end, "end %s\ncalls %ui\n%Vlen %uz\n\n", end, p->calls, &p->hdr, p->len);
    b->last = ngx_cpymem(b->last, p->body, p->len);
    b->last_buf = 1;
    out.buf = b;
    out.next = NULL;
    r->headers_out.status = 200;
    r->headers_out.content_length_n = b->last - b->pos;
    ngx_http_send_header(r);
    ngx_http_finalize_request(r, ngx_http_output_filter(r, &out));
}

static void
pv_gone(void *data)
{
    pv_t *p = data;
    if (p->finished) {
        return;
    }
    p->hcr = NULL;
    pv_reply(p, "failed");
}

/* the requester went away first */
static void
pv_client_gone(void *data)
{
    pv_t *p = data;
    if (p->hcr && !p->finished) {
        p->finished = 1;
        ngx_http_client_detach(p->hcr);
        p->hcr = NULL;
    }
}

static void
pv_body(void *request, ngx_http_request_t *hcr)
{
    pv_t         *p = request;
    ngx_chain_t  *in = NULL, *cl;
    ngx_int_t     rc;
    size_t        n;

    ++p->calls;
    rc = ngx_http_client_read_body(hcr, &in);
    if (rc == NGX_AGAIN || rc == NGX_DONE) {
        for (cl = in; cl; cl = cl->next) {
            n = cl->buf->last - cl->buf->pos;
            if (cl->next == NULL && rc == NGX_AGAIN && p->keep) {
                n = n > (size_t) p->keep ? n - p->keep : 0;
            }
            pv_add(p, cl->buf->pos, n);
            cl->buf->pos += n;
        }
        if (rc == NGX_AGAIN) {
            return;
        }
        p->finished = 1;
        p->hcr = NULL;
        ngx_http_client_finalize_request(hcr, 0);
        pv_reply(p, "done");
        return;
    }
    p->finished = 1;
    p->hcr = NULL;
    ngx_http_client_finalize_request(hcr, 1);
    pv_reply(p, rc == 0 ? "closed" : rc == NGX_ERROR ? "error" : "other");
}

static void
pv_headers(void *request, ngx_http_request_t *hcr)
{
    static ngx_str_t  names[] = { ngx_string("X-A"), ngx_string("x-b"), ngx_string("Content-Type"), ngx_string("Location"), ngx_null_string };
    pv_t             *p = request;
    ngx_str_t        *v;
    ngx_uint_t        i;
    u_char           *e;

    p->headers = 1;
    p->hdr.data = ngx_palloc(p->r->pool, 16384);
    e = ngx_slprintf(p->hdr.data, p->hdr.data + 16384, "status %ui\nversion %ui\n", ngx_http_client_status_code(hcr), ngx_http_client_http_version(hcr));
    for (i = 0; names[i].len; i++) {
        v = ngx_http_client_header_in(hcr, &names[i]);
        if (v) {
            e = ngx_slprintf(e, p->hdr.data + 16384, "h%ui %V\n", i, v);
        }
    }
    p->hdr.len = e - p->hdr.data;
    if (p->detach == 1) {
        p->finished = 1;
        p->hcr = NULL;
        ngx_http_client_detach(hcr);
        pv_reply(p, "detached");
        return;
    }
    if (p->detach == 2) {
        p->finished = 1;
        p->hcr = NULL;
        ngx_http_client_finalize_request(hcr, 1);
        pv_reply(p, "dropped");
        return;
    }
    ngx_http_client_set_read_handler(hcr, pv_body);
    pv_body(request, hcr);
}

static ngx_int_t
pv_handler(ngx_http_request_t *r)
{
    pv_t                *p;
    ngx_str_t            v;
    ngx_http_cleanup_t  *cln;
    ngx_pool_cleanup_t  *pc;
    u_char              *d, *s;

    p = ngx_pcalloc(r->pool, sizeof(pv_t));
    p->r = r;
    p->body = (u_char *) "";
    if (ngx_http_arg(r, (u_char *) "u", 1, &v) != NGX_OK) {
        return NGX_HTTP_BAD_REQUEST;
    }
    p->url.data = d = ngx_pnalloc(r->pool, v.len);
    s = v.data;
    ngx_unescape_uri(&d, &s, v.len, 0);
    p->url.len = d - p->url.data;
    if (ngx_http_arg(r, (u_char *) "k", 1, &v) == NGX_OK) {
        p->keep = ngx_atoi(v.data, v.len);
    }
    if (ngx_http_arg(r, (u_char *) "d", 1, &v) == NGX_OK) {
        p->detach = ngx_atoi(v.data, v.len);
    }
    if (ngx_http_arg(r, (u_char *) "m", 1, &v) == NGX_OK && v.len == 4 && ngx_strncmp(v.data, "HEAD", 4) == 0) {
        p->hcr = ngx_http_client_head(r->connection->log, &p->url, NULL, p);
    } else {
        p->hcr = ngx_http_client_get(r->connection->log, &p->url, NULL, p);
    }
    if (p->hcr == NULL) {
        return NGX_HTTP_NOT_FOUND;
    }
    ngx_http_client_set_read_handler(p->hcr, pv_headers);
    cln = ngx_http_client_cleanup_add(p->hcr, 0);
    cln->handler = pv_gone;
    cln->data = p;
    pc = ngx_pool_cleanup_add(r->pool, 0);
    pc->handler = pv_client_gone;
    pc->data = p;
    r->main->count++;
    return NGX_DONE;
}

static char *
pv_set(ngx_conf_t *cf, ngx_command_t *cmd, void *conf)
{
    ngx_http_core_loc_conf_t *clcf = ngx_http_conf_get_module_loc_conf(cf, ngx_http_core_module);
    clcf->handler = pv_handler;
    return NGX_CONF_OK;
}
