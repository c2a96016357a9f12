/* C03: both timer interfaces under a simulated clock */
#include "common.h"
#include "ngx_timerd.h"
#include "ngx_event_timer_module.h"

extern ngx_module_t ngx_event_timer_module;

#define N 64
typedef struct { long pad; ngx_uint_t fp; long h; ngx_event_t ev; } dbg_t;
typedef struct { int op; long h; long ms; int last; } act_t;

static dbg_t *dbg[N];
static long   id[N];
static long   handle[N];
static act_t  script[2][N][16];
static int    shead[2][N], stail[2][N];
static void  *conf_ctx[64], *evconf[64], **evc = evconf;

static void run(int op, long h, long ms);

static void play(int kind, long h)
{
    while (shead[kind][h] < stail[kind][h]) {
        act_t a = script[kind][h][shead[kind][h]++];
        if (a.op) run(a.op, a.h, a.ms);
        if (a.last) break;
    }
}

static void fired(void *data)
{
    long h = *(long *) data;
    printf("f%ld@%lu ", h, (unsigned long) ngx_current_msec);
    play(0, h);
}

static void dfired(ngx_event_t *ev)
{
    dbg_t *d = ev->data;
    printf("F%ld@%lu:%d%d ", d->h, (unsigned long) ngx_current_msec, ev->timer_set, ev->timedout);
    ev->timedout = 0;
    play(1, d->h);
}

static void run(int op, long h, long ms)
{
    long e0 = pv_emerg;
    switch (op) {
    case 'a': id[h] = ngx_event_timer_add_timer(ms, fired, &handle[h]); printf("%d ", id[h] >= 0); break;
    case 'd': ngx_event_timer_del_timer(id[h]); printf("0 "); break;
    case 'A': ngx_add_timer_debug(&dbg[h]->ev, ms, offsetof(dbg_t, fp), "td.c", (int) h); printf("%ld:%d ", pv_emerg - e0, dbg[h]->ev.timer_set); break;
    case 'D': ngx_del_timer_debug(&dbg[h]->ev, dbg[h]->fp, "td.c", 0); printf("%ld:%d ", pv_emerg - e0, dbg[h]->ev.timer_set); break;
    }
}

int main(void)
{
    char *w;
    ngx_event_timer_module.index = 7; ngx_event_timer_module.ctx_index = 9;
    ngx_events_module.index = 5;
    pv_init();
    conf_ctx[5] = &evc;
    pv_cycle.conf_ctx = (void ****) conf_ctx;
    ngx_event_timer_init(&pv_log);
    ngx_current_msec = 1000000;
    ngx_event_module_t *m = ngx_event_timer_module.ctx;

    while (pv_next()) {
        evconf[9] = m->create_conf(&pv_cycle);
        m->init_conf(&pv_cycle, evconf[9]);
        printf("%lu ", (unsigned long) *(ngx_uint_t *) evconf[9]);
        *(ngx_uint_t *) evconf[9] = pv_num();          /* worker_timers */
        ngx_event_timer_module.init_process(&pv_cycle);
        for (long i = 0; i < N; i++) {
            dbg[i] = calloc(1, sizeof(dbg_t)); dbg[i]->h = i; dbg[i]->fp = ngx_timerd_footprint(); dbg[i]->ev.data = dbg[i]; dbg[i]->ev.handler = dfired; dbg[i]->ev.log = &pv_log;
            handle[i] = i;
        }
        memset(shead, 0, sizeof(shead)); memset(stail, 0, sizeof(stail));
        unsigned long t0 = ngx_current_msec;
        while ((w = pv_word())) {
            switch (*w) {
            case 'a': case 'A': { long h = pv_num(); long ms = pv_num(); run(*w, h, ms); break; }
            case 'd': case 'D': { long h = pv_num(); run(*w, h, 0); break; }
            case 'k': { int kind = pv_num(); long h = pv_num(); act_t *a = &script[kind][h][stail[kind][h]++]; w = pv_word(); a->op = *w == '.' ? 0 : *w; a->h = pv_num(); a->ms = pv_num(); a->last = pv_num(); break; }
            case 'X': { long h = pv_num(); dbg[h]->fp = ngx_timerd_footprint(); break; }
            case 'm': { long e0 = pv_emerg; ngx_current_msec += pv_num(); ngx_event_expire_timers(); printf("|%ld ", pv_emerg - e0); break; }
            case 'S': case 's': {
                ngx_http_request_t r; memset(&r, 0, sizeof(r)); r.pool = ngx_create_pool(4096, &pv_log);
                ngx_chain_t *cl = *w == 's' ? ngx_timerd_state(&r, 1) : ngx_event_timer_state(&r);
                for (u_char *p = cl->buf->pos; p < cl->buf->last; p++) putchar(*p == '\n' ? '|' : *p == ' ' ? '_' : *p);
                putchar(' '); ngx_destroy_pool(r.pool); break; }
            case 'T': { ngx_msec_t t = ngx_event_find_timer(); printf("%ld ", (long) t); break; }
            }
        }
        printf("%lu\n", (unsigned long) (ngx_current_msec - t0));
        for (long i = 0; i < N; i++) free(dbg[i]);
    }
    return 0;
}
