/* C01: commands on maps of string, unsigned and signed keys */
#include "common.h"
#include "ngx_map.h"

#define NMAPS 3
#define NNODES 4096

typedef struct { ngx_map_node_t n; long id; ngx_str_t s; } node_t;

static ngx_map_t maps[NMAPS];
static node_t   *nodes[NMAPS * NNODES];

static long id_of(ngx_map_node_t *n) { return n ? ((node_t *) n)->id : -1; }

int main(void)
{
    char *w;
    long  kind, id;

    pv_init();
    while (pv_next()) {
        /* one line is a whole case: fresh maps, then commands */
        memset(maps, 0xa5, sizeof(maps));
        ngx_map_init(&maps[0], ngx_map_hash_str, ngx_cmp_str);
        ngx_map_init(&maps[1], ngx_map_hash_uint, ngx_cmp_uint);
        ngx_map_init(&maps[2], ngx_map_hash_int, ngx_cmp_int);
        long used = 0;
        while ((w = pv_word())) {
            ngx_map_t *m;
            kind = pv_num();
            m = &maps[kind];
            if (*w == 'B' || *w == 'R') {
                ngx_map_node_t *n; long guard = 0;
                for (n = *w == 'B' ? ngx_map_begin(m) : ngx_map_rbegin(m); n && guard < 3 * NNODES; n = *w == 'B' ? ngx_map_next(n) : ngx_map_prev(n), guard++) {
                    printf("%ld,", id_of(n));
                }
                printf(" ");
                continue;
            }
            if (*w == 'E') { printf("%d ", (int) ngx_map_empty(m)); continue; }
            /* a key */
            ngx_str_t *s = NULL; intptr_t key; size_t len;
            if (kind == 0) {
                s = malloc(sizeof(*s));
                s->data = pv_hex(&len); s->len = len;
                key = (intptr_t) s;
            } else {
                key = (intptr_t) strtoull(pv_word(), NULL, 0);
            }
            if (*w == 'I' || *w == 'C') {
                id = pv_num();
                node_t *nd = malloc(sizeof(node_t));
                memset(nd, 0x5a, sizeof(*nd));
                nd->id = id;
                nd->n.raw_key = key;
                ngx_map_insert(m, &nd->n, *w == 'C');
            } else if (*w == 'D') {
                ngx_map_delete(m, key);
            } else if (*w == 'F') {
                printf("%ld ", id_of(ngx_map_find(m, key)));
            } else if (*w == 'N' || *w == 'P') {
                ngx_map_node_t *n = ngx_map_find(m, key);
                printf("%ld ", n ? id_of(*w == 'N' ? ngx_map_next(n) : ngx_map_prev(n)) : -2);
            }
        }
        printf("\n");
    }
    return 0;
}
