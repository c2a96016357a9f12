/* dyn_probe.c: a module with dynamic directives at every level; GET reports the values found for the request
   (HTTP: its Host and URI) and for the arguments d= and a= (RTMP: domain and application) */
#include <ngx_config.h>
#include <ngx_core.h>
#include <ngx_http.h>
#include "ngx_rtmp.h"
#include "ngx_dynamic_conf.h"
#include "ngx_http_dynamic.h"
#include "ngx_rtmp_dynamic.h"
#include "ngx_toolkit_misc.h"

typedef struct { ngx_str_t v; } pv_val_t;

static ngx_uint_t pv_loads;

static void *
pv_create(ngx_conf_t *cf)
{
    return ngx_pcalloc(cf->pool, sizeof(pv_val_t));
}

static void *
pv_create_core(ngx_conf_t *cf)
{
    pv_loads++;
    return ngx_pcalloc(cf->pool, sizeof(pv_val_t));
}

static ngx_command_t pv_core_d[] = {
    { ngx_string("pv_version"), NGX_MAIN_CONF|NGX_CONF_TAKE1, ngx_conf_set_str_slot, 0, offsetof(pv_val_t, v), NULL },
    ngx_null_command
};
static ngx_command_t pv_http_d[] = {
    { ngx_string("mkey"), NGX_HTTP_MAIN_CONF|NGX_CONF_TAKE1, ngx_conf_set_str_slot, 0, offsetof(pv_val_t, v), NULL },
    { ngx_string("skey"), NGX_HTTP_SRV_CONF|NGX_CONF_TAKE1, ngx_conf_set_str_slot, 0, offsetof(pv_val_t, v), NULL },
    { ngx_string("lkey"), NGX_HTTP_LOC_CONF|NGX_CONF_TAKE1, ngx_conf_set_str_slot, 0, offsetof(pv_val_t, v), NULL },
    ngx_null_command
};
static ngx_command_t pv_rtmp_d[] = {
    { ngx_string("mkey"), NGX_RTMP_MAIN_CONF|NGX_CONF_TAKE1, ngx_conf_set_str_slot, 0, offsetof(pv_val_t, v), NULL },
    { ngx_string("skey"), NGX_RTMP_SRV_CONF|NGX_CONF_TAKE1, ngx_conf_set_str_slot, 0, offsetof(pv_val_t, v), NULL },
    { ngx_string("akey"), NGX_RTMP_APP_CONF|NGX_CONF_TAKE1, ngx_conf_set_str_slot, 0, offsetof(pv_val_t, v), NULL },
    ngx_null_command
};
static ngx_dynamic_core_module_t pv_core_dctx = { ngx_string("pv_core"), pv_create_core, NULL };
static ngx_http_dynamic_module_t pv_http_dctx = { pv_create, NULL, pv_create, NULL, pv_create, NULL };
static ngx_rtmp_dynamic_module_t pv_rtmp_dctx = { pv_create, NULL, pv_create, NULL, pv_create, NULL };

static char *pv_set(ngx_conf_t *cf, ngx_command_t *cmd, void *conf);
static ngx_command_t pv_cmds[] = {
    { ngx_string("pv_dyn"), NGX_HTTP_LOC_CONF|NGX_CONF_NOARGS, pv_set, 0, 0, NULL },
    ngx_null_command
};
static ngx_core_module_t pv_core_ctx = { ngx_string("pv_dyn_core"), NULL, NULL };
static ngx_http_module_t pv_http_ctx = { NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL };
static ngx_rtmp_module_t pv_rtmp_ctx = { NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL };

ngx_module_t pv_dyn_core_module = { NGX_MODULE_V1, &pv_core_ctx, NULL, NGX_CORE_MODULE, NULL, NULL, NULL, NULL, NULL, NULL, NULL,
    (uintptr_t) &pv_core_dctx, (uintptr_t) pv_core_d, NGX_MODULE_V1_DYNAMIC_PADDING };
ngx_module_t pv_dyn_http_module = { NGX_MODULE_V1, &pv_http_ctx, pv_cmds, NGX_HTTP_MODULE, NULL, NULL, NULL, NULL, NULL, NULL, NULL,
    (uintptr_t) &pv_http_dctx, (uintptr_t) pv_http_d, NGX_MODULE_V1_DYNAMIC_PADDING };
ngx_module_t pv_dyn_rtmp_module = { NGX_MODULE_V1, &pv_rtmp_ctx, NULL, NGX_RTMP_MODULE, NULL, NULL, NULL, NULL, NULL, NULL, NULL,
    (uintptr_t) &pv_rtmp_dctx, (uintptr_t) pv_rtmp_d, NGX_MODULE_V1_DYNAMIC_PADDING };

ngx_module_t *ngx_modules[] = { &pv_dyn_core_module, &pv_dyn_http_module, &pv_dyn_rtmp_module, NULL };
char *ngx_module_names[] = { "pv_dyn_core_module", "pv_dyn_http_module", "pv_dyn_rtmp_module", NULL };
char *ngx_module_order[] = { NULL };

static u_char *
pv_put(u_char *p, u_char *end, void *conf)
{
    pv_val_t *v = conf;

    if (v == NULL) {
        return ngx_slprintf(p, end, "-\n");
    }
    return ngx_slprintf(p, end, "=%V\n", &v->v);
}

static ngx_int_t
pv_handler(ngx_http_request_t *r)
{
    ngx_rtmp_session_t  *s;
    ngx_rtmp_core_srv_dconf_t *rc;
    ngx_chain_t          out;
    ngx_buf_t           *b;
    ngx_str_t            d, a;

    s = ngx_pcalloc(r->pool, sizeof(ngx_rtmp_session_t));
    b = ngx_create_temp_buf(r->pool, 65536);
    if (s == NULL || b == NULL) {
        return NGX_HTTP_INTERNAL_SERVER_ERROR;
    }
    ngx_str_null(&d);
    ngx_str_null(&a);
    ngx_http_arg(r, (u_char *) "d", 1, &d);
    ngx_http_arg(r, (u_char *) "a", 1, &a);
    s->domain = d;
    s->app = a;
    s->pool = r->pool;
    b->last = ngx_slprintf(b->last, b->end, "%ui\n", pv_loads);
    b->last = pv_put(b->last, b->end, ngx_get_dconf(&pv_dyn_core_module));
    b->last = pv_put(b->last, b->end, ngx_http_get_module_main_dconf(r, &pv_dyn_http_module));
    b->last = pv_put(b->last, b->end, ngx_http_get_module_srv_dconf(r, &pv_dyn_http_module));
    b->last = pv_put(b->last, b->end, ngx_http_get_module_loc_dconf(r, &pv_dyn_http_module));
    b->last = pv_put(b->last, b->end, ngx_rtmp_get_module_main_dconf(s, &pv_dyn_rtmp_module));
    b->last = pv_put(b->last, b->end, ngx_rtmp_get_module_srv_dconf(s, &pv_dyn_rtmp_module));
    b->last = pv_put(b->last, b->end, ngx_rtmp_get_module_app_dconf(s, &pv_dyn_rtmp_module));
    rc = ngx_rtmp_get_module_srv_dconf(s, &ngx_rtmp_core_module);
    if (rc == NULL) {
        b->last = ngx_slprintf(b->last, b->end, "-\n");
    } else {
        b->last = ngx_slprintf(b->last, b->end, "=%V\n", &rc->serverid);
    }
    b->last_buf = 1;
    b->last_in_chain = 1;
    r->headers_out.status = NGX_HTTP_OK;
    r->headers_out.content_length_n = b->last - b->pos;
    ngx_http_send_header(r);
    out.buf = b;
    out.next = NULL;
    return ngx_http_output_filter(r, &out);
}

static char *
pv_set(ngx_conf_t *cf, ngx_command_t *cmd, void *conf)
{
    ngx_http_core_loc_conf_t *clcf = ngx_http_conf_get_module_loc_conf(cf, ngx_http_core_module);

    clcf->handler = pv_handler;
    return NGX_CONF_OK;
}
