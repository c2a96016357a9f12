/* C04: URL, address, port and file-hash helpers */
#include "common.h"
#include "ngx_toolkit_misc.h"
#include "ngx_multiport.h"
#include <sys/mman.h>

int main(void)
{
    char *w;
    pv_init();
    while (pv_next()) {
        w = pv_word();
        switch (*w) {
        case 'U': {
            size_t n; u_char *d = pv_hex(&n); ngx_str_t url = { n, d };
            ngx_request_url_t *u = malloc(sizeof(*u));
            memset(u, 0x5a, sizeof(*u));
            ngx_int_t rc = ngx_parse_request_url(u, &url);
            printf("%d", (int) rc);
            if (rc == NGX_OK) {
                ngx_str_t *s[] = { &u->scheme, &u->user, &u->host, &u->port, &u->path, &u->args, &u->fragment, &u->host_with_port, &u->uri_with_args };
                for (int i = 0; i < 9; i++) {
                    if (s[i]->len && (s[i]->data < d || s[i]->data + s[i]->len > d + n)) { printf(" OUT"); continue; }
                    putchar(' '); pv_puthex(s[i]->data, s[i]->len);
                }
            }
            free(u); free(d);
            break; }
        case 'S': {
            size_t n; u_char *d = pv_hex(&n);
            ngx_sockaddr_t *sa = malloc(sizeof(*sa));
            memset(sa, 0x5a, sizeof(*sa));
            socklen_t l = ngx_sock_pton(&sa->sockaddr, d, n);
            printf("%d", l > 0);
            if (l) {
                printf(" %d", sa->sockaddr.sa_family);
                if (sa->sockaddr.sa_family == AF_INET) { printf(" %d %d ", l == sizeof(sa->sockaddr_in), ntohs(sa->sockaddr_in.sin_port)); pv_puthex((u_char *) &sa->sockaddr_in.sin_addr, 4); }
                else if (sa->sockaddr.sa_family == AF_INET6) { printf(" %d %d ", l == sizeof(sa->sockaddr_in6), ntohs(sa->sockaddr_in6.sin6_port)); pv_puthex((u_char *) &sa->sockaddr_in6.sin6_addr, 16); }
                else { printf(" %d 0 ", l == sizeof(sa->sockaddr_un)); pv_puthex((u_char *) sa->sockaddr_un.sun_path, strnlen(sa->sockaddr_un.sun_path, sizeof(sa->sockaddr_un.sun_path))); }
            }
            free(sa); free(d);
            break; }
        case 'P': {
            ngx_str_t s, p; s.data = pv_hex(&s.len); p.data = pv_hex(&p.len);
            printf("%d", ngx_request_port(&s, &p));
            free(s.data); free(p.data);
            break; }
        case 'M': {
            size_t n; u_char *d = pv_hex(&n); long rep = pv_num();
            u_char key[NGX_MD5KEY_LEN];
            int fd = memfd_create("x", 0);
            while (rep--) if (write(fd, d, n) != (ssize_t) n) abort();
            lseek(fd, 0, SEEK_SET);
            printf("%d %.32s", (int) ngx_md5_file(fd, key), key);
            close(fd); printf(" %d", (int) ngx_md5_file(fd, key));
            free(d);
            break; }
        case 'G': {
            ngx_int_t slot = pv_num(); ngx_str_t m, port; m.data = pv_hex(&m.len);
            ngx_pool_t *pool = ngx_create_pool(1024, &pv_log);
            memset(&port, 0x5a, sizeof(port));
            ngx_int_t rc = ngx_multiport_get_port(pool, &port, &m, slot);
            printf("%d", (int) rc);
            if (rc == NGX_OK) { putchar(' '); pv_puthex(port.data, port.len); }
            ngx_destroy_pool(pool); free(m.data);
            break; }
        case 'Y': {
            ngx_str_t s, t; s.data = pv_hex(&s.len);
            ngx_pool_t *pool = ngx_create_pool(1024, &pv_log);
            ngx_str_null(&t);
            ngx_int_t rc = ngx_copy_str(pool, &t, &s);
            printf("%d %d ", (int) rc, t.data != s.data || s.len == 0);
            memset(s.data, 0, s.len); free(s.data);
            pv_puthex(t.data, t.len);
            ngx_destroy_pool(pool);
            break; }
        }
        putchar('\n');
    }
    return 0;
}
