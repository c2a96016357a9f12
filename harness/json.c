/* C09: the JSON library: parsing, printing, editing, pointers and patches */
#include "common.h"
#include "cJSON.h"
#include <locale.h>

#define NSLOT 8
static cJSON *slot[NSLOT];

static void dump(const cJSON *v)
{
    const cJSON *c, *p;

    if (v == NULL) { putchar('0'); return; }
    switch (v->type & 0xff) {
    case cJSON_False: putchar('f'); return;
    case cJSON_True: putchar('t'); return;
    case cJSON_NULL: putchar('n'); return;
    case cJSON_Number: printf("d%.17g;", v->valuedouble); if (v->valueint != (v->valuedouble >= 2147483647.0 ? 2147483647 : v->valuedouble <= -2147483648.0 ? (int) 0x80000000 : (int) v->valuedouble)) printf("!int%d", v->valueint); return;
    case cJSON_String: putchar('s'); pv_puthex((u_char *) v->valuestring, strlen(v->valuestring)); putchar(';'); return;
    case cJSON_Array: case cJSON_Object:
        putchar((v->type & 0xff) == cJSON_Array ? '[' : '{');
        for (c = v->child, p = NULL; c; p = c, c = c->next) {
            if (p && c->prev != p) printf("!prev");
            if ((v->type & 0xff) == cJSON_Object) { pv_puthex((u_char *) c->string, strlen(c->string)); putchar('='); }
            dump(c);
        }
        if (p && v->child->prev != p) printf("!tail");
        putchar((v->type & 0xff) == cJSON_Array ? ']' : '}');
        return;
    }
    printf("?%d", v->type);
}

static void text(char *s)
{
    putchar(' ');
    if (s == NULL) { putchar('0'); return; }
    pv_puthex((u_char *) s, strlen(s));
    free(s);
}

static char *str(void)
{
    size_t n; u_char *b = pv_hex(&n); char *z = malloc(n + 1);
    memcpy(z, b, n); z[n] = 0; free(b);
    return z;
}

/* slot number and child indices: "2.0.1" */
static cJSON *at(cJSON **parent)
{
    char *w = pv_word();
    cJSON *v = slot[*w++ - '0'], *p = NULL;
    while (v && *w == '.') { p = v; v = cJSON_GetArrayItem(v, strtol(w + 1, &w, 10)); }
    if (parent) *parent = p;
    return v;
}

static cJSON **sl(void) { return &slot[*pv_word() - '0']; }

static void put(cJSON **s, cJSON *v) { cJSON_Delete(*s); *s = v; }

static void parse(void)
{
    int mode = pv_num();        /* 1: with length and no terminator, 2: terminator required */
    size_t n; u_char *b = pv_hex(&n); char *z = (char *) b; const char *end = NULL;
    cJSON *v;

    if (!(mode & 1)) { z = malloc(n + 1); memcpy(z, b, n); z[n] = 0; free(b); }
    v = (mode & 1) ? cJSON_ParseWithLengthOpts(z, n, &end, mode & 2) : cJSON_ParseWithOpts(z, &end, mode & 2);
    if (v == NULL) {
        printf("E %ld", end ? (long) (end - z) : -1L);
    } else {
        char *t, *u;
        int len;
        printf("V %ld ", (long) (end - z));
        dump(v);
        t = cJSON_PrintUnformatted(v); len = t ? strlen(t) : 0;
        u = malloc(len + 6);
        if (t == NULL || !cJSON_PrintPreallocated(v, u, len + 6, 0) || strcmp(t, u)) printf(" !prealloc");
        if (t && len && cJSON_PrintPreallocated(v, u, len, 0)) printf(" !short");
        free(u);
        u = cJSON_PrintBuffered(v, 1, 0); if (u == NULL || strcmp(t, u)) printf(" !buffered"); free(u);
        u = cJSON_Print(v);
        text(u); text(t);
        cJSON_Delete(v);
    }
    free(z);
}

int main(void)
{
    setlocale(LC_ALL, "C");
    pv_init();
    while (pv_next()) {
        char *w = pv_word();
        if (!strcmp(w, "parse")) { parse(); }
        else if (!strcmp(w, "script")) {
            while ((w = pv_word()) != NULL) {
                cJSON *a, *b, *p, **d, **e; char *k; int i, cs, r = -1;
                switch (*w) {
                case 'P': d = sl(); k = str(); put(d, cJSON_Parse(k)); free(k); break;
                case 'A': a = at(NULL); d = sl(); r = cJSON_AddItemToArray(a, *d); if (r) *d = NULL; break;
                case 'O': a = at(NULL); k = str(); d = sl(); r = cJSON_AddItemToObject(a, k, *d); if (r) *d = NULL; free(k); break;
                case 'I': a = at(NULL); i = pv_num(); d = sl(); r = cJSON_InsertItemInArray(a, i, *d); if (r) *d = NULL; break;
                case 'R': a = at(NULL); i = pv_num(); d = sl(); r = cJSON_ReplaceItemInArray(a, i, *d); if (r) *d = NULL; break;
                case 'D': a = at(NULL); i = pv_num(); d = sl(); b = cJSON_DetachItemFromArray(a, i); r = b != NULL; if (b) { if (b->next || b->prev) printf("!links"); put(d, b); } break;
                case 'E': a = at(NULL); k = str(); cs = pv_num(); d = sl(); b = cs ? cJSON_DetachItemFromObjectCaseSensitive(a, k) : cJSON_DetachItemFromObject(a, k);
                    r = b != NULL; if (b) put(d, b); free(k); break;
                case 'U': a = at(NULL); d = sl(); b = cJSON_Duplicate(a, 1); r = b != NULL; if (b) put(d, b); break;
                }
                printf("%d", r);
                for (i = 0; i < NSLOT; i++) { putchar(','); dump(slot[i]); }
                putchar(' ');
            }
            for (int i = 0; i < NSLOT; i++) { cJSON_Delete(slot[i]); slot[i] = NULL; }
        }
        putchar('\n');
    }
    return 0;
}
