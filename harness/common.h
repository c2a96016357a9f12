/* shared by the harnesses: a minimal nginx environment and line input */
#include <ngx_config.h>
#include <ngx_core.h>
#include <ngx_event.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static ngx_log_t        pv_log;
static ngx_open_file_t  pv_log_file;
static ngx_cycle_t      pv_cycle;
static char            *pv_line;
static size_t           pv_line_cap;
static char            *pv_tok;
static long             pv_emerg;

static void pv_log_writer(ngx_log_t *log, ngx_uint_t level, u_char *buf, size_t len)
{
    if (level <= NGX_LOG_EMERG) { pv_emerg++; }
}

static void pv_init(void)
{
    ngx_time_init();
    ngx_pagesize = 4096;
    ngx_cacheline_size = 64;
    pv_log.log_level = NGX_LOG_EMERG;
    pv_log_file.fd = 2;
    pv_log.file = &pv_log_file;
    pv_log.writer = pv_log_writer;
    pv_cycle.log = &pv_log;
    pv_cycle.pool = ngx_create_pool(4096, &pv_log);
    ngx_cycle = &pv_cycle;
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
}

/* next input line into pv_tok; 0 at the end */
static int pv_next(void)
{
    ssize_t n;

    fflush(stdout);
    n = getline(&pv_line, &pv_line_cap, stdin);
    if (n <= 0) {
        return 0;
    }
    if (pv_line[n - 1] == '\n') {
        pv_line[n - 1] = 0;
    }
    pv_tok = pv_line;
    return 1;
}

/* next word of the line or NULL */
static char *pv_word(void)
{
    char *p;

    while (*pv_tok == ' ') pv_tok++;
    if (*pv_tok == 0) return NULL;
    p = pv_tok;
    while (*pv_tok && *pv_tok != ' ') pv_tok++;
    if (*pv_tok) *pv_tok++ = 0;
    return p;
}

static long long pv_num(void)
{
    char *p = pv_word();
    return p ? strtoll(p, NULL, 0) : 0;
}

static int pv_hexv(int c)
{
    return c <= '9' ? c - '0' : (c | 32) - 'a' + 10;
}

/* next word as hex bytes ("-" is empty) in an exactly sized malloc block (so that overruns are seen) */
static u_char *pv_hex(size_t *len)
{
    char   *p = pv_word();
    size_t  n, i;
    u_char *b;

    if (p == NULL || *p == '-') { *len = 0; return malloc(1) ; }
    n = strlen(p) / 2;
    b = malloc(n ? n : 1);
    for (i = 0; i < n; i++) b[i] = pv_hexv(p[2 * i]) << 4 | pv_hexv(p[2 * i + 1]);
    *len = n;
    return b;
}

static void pv_puthex(const u_char *b, size_t n)
{
    size_t i;

    if (n == 0) { putchar('-'); return; }
    for (i = 0; i < n; i++) printf("%02x", b[i]);
}
