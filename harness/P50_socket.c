// P50: sockets over a modelled socket layer (symbolic answers and failures)
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#ifndef MAXF
#define MAXF 2
#endif
static int fault_(void); static int faults_;
static int fd_, open_, opened_, freed_, ai_live_, bad_, bound_, connected_, nonblock_, nb_at_connect_, v6only_, nodelay_, nodelay_set_, inprog_, family_, stype_, hflags_, hfam_;
static struct sockaddr_storage ss_; static struct addrinfo ai_; static char const *host_, *serv_;
int getaddrinfo(const char *h, const char *s, const struct addrinfo *hints, struct addrinfo **res) {
    host_ = h; serv_ = s; if (!hints) { bad_++; return EAI_FAIL; } hflags_ = hints->ai_flags; hfam_ = hints->ai_family; stype_ = hints->ai_socktype; if (hints->ai_addr || hints->ai_canonname || hints->ai_next || hints->ai_addrlen) bad_++;
    if (fault_()) return EAI_NONAME; memset(&ai_, 0, sizeof ai_); ai_.ai_family = family_; ai_.ai_socktype = stype_; ai_.ai_protocol = 6; ai_.ai_addr = (struct sockaddr *)&ss_; ai_.ai_addrlen = family_ == AF_INET6 ? 28 : 16; *res = &ai_; ai_live_++; return 0; }
void freeaddrinfo(struct addrinfo *a) { if (a != &ai_ || ai_live_ != 1) bad_++; ai_live_--; freed_++; }
int socket(int f, int t, int p) { if (f != family_ || t != stype_ || p != 6) bad_++; if (fault_()) { errno = EMFILE; return -1; } open_++; opened_++; return fd_; }
static int ok_(int s) { if (s != fd_ || !open_) { bad_++; errno = EBADF; return 0; } return 1; }
int setsockopt(int s, int l, int n, const void *v, socklen_t len) { if (!ok_(s) || !v || len != sizeof(int)) { bad_++; return -1; } int x = *(int const *)v; if (l == IPPROTO_IPV6 && n == IPV6_V6ONLY) v6only_ = !!x; else if (l == IPPROTO_TCP && n == TCP_NODELAY) { nodelay_ = !!x; nodelay_set_ = 1; } return 0; }
int bind(int s, const struct sockaddr *a, socklen_t l) { if (!ok_(s) || a != (struct sockaddr *)&ss_ || l != ai_.ai_addrlen || connected_) { bad_++; return -1; } if (fault_()) { errno = EADDRINUSE; return -1; } bound_++; return 0; }
int fcntl(int s, int c, ...) { if (!ok_(s)) return -1; __builtin_va_list ap; __builtin_va_start(ap, c); int v = c == F_SETFL ? __builtin_va_arg(ap, int) : 0; __builtin_va_end(ap); if (fault_()) { errno = EINVAL; return -1; } if (c == F_GETFL) return O_RDWR | (nonblock_ ? O_NONBLOCK : 0); if (c == F_SETFL) { nonblock_ = !!(v & O_NONBLOCK); return 0; } bad_++; return -1; }
int connect(int s, const struct sockaddr *a, socklen_t l) { if (!ok_(s) || a != (struct sockaddr *)&ss_ || l != ai_.ai_addrlen) { bad_++; return -1; } nb_at_connect_ = nonblock_; if (fault_()) { errno = ECONNREFUSED; return -1; } connected_++; if (nonblock_ && inprog_) { errno = EINPROGRESS; return -1; } return 0; }
int close(int s) { if (!ok_(s)) return -1; open_--; return 0; }
static int p_fd_, p_n_, p_fl_; static void const *p_buf_, *p_addr_; static int p_ret_, p_calls_; static unsigned p_alen_;
static int io_(int s, void const *b, int n, int fl, void const *a, unsigned al) { p_calls_++; p_fd_ = s; p_buf_ = b; p_n_ = n; p_fl_ = fl; p_addr_ = a; p_alen_ = al; return p_ret_; }
static int fill_(void *a, socklen_t *l, int need) { if (need && (!a || !l)) { bad_++; return -1; } if (a && !l) { bad_++; return -1; } if (a) { if (*l < 28) { bad_++; return -1; } memset(a, 0x5A, 28); *l = 28; } return 0; }
int listen(int s, int n) { return io_(s, 0, n, 0, 0, 0); }
int accept(int s, struct sockaddr *a, socklen_t *l) { unsigned al = a && l ? *l : 0; if (fill_(a, l, 0)) return -1; return io_(s, 0, 0, 0, a, al); }
int getsockname(int s, struct sockaddr *a, socklen_t *l) { unsigned al = a && l ? *l : 0; if (fill_(a, l, 1)) return -1; return io_(s, 0, 0, 0, a, al); }
static void *g_h_, *g_s_; static unsigned g_hl_, g_sl_;
int getnameinfo(const struct sockaddr *a, socklen_t l, char *h, socklen_t hl, char *s, socklen_t sl, int fl) { g_h_ = h; g_hl_ = hl; g_s_ = s; g_sl_ = sl; return io_(0, 0, 0, fl, a, l); }
ssize_t send(int s, const void *b, size_t n, int fl) { return io_(s, b, (int)n, fl, 0, 0); }
ssize_t recv(int s, void *b, size_t n, int fl) { return io_(s, b, (int)n, fl, 0, 0); }
ssize_t sendto(int s, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) { return io_(s, b, (int)n, fl, a, l); }
ssize_t recvfrom(int s, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) { unsigned al = a && l ? *l : 0; if (fill_(a, l, 0)) return -1; return io_(s, b, (int)n, fl, a, al); }
static fd_set sel_; static int sel_n_, sel_calls_, sel_x_; static struct timeval sel_tv_;
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) { sel_calls_++; sel_n_ = n; if (!r || !tv) { bad_++; return -1; } sel_ = *r; sel_tv_ = *tv; sel_x_ = w || e; return p_ret_; }
#include "vp.h"
static int fault_(void) { if (faults_ >= MAXF) return 0; int f = nd_pick(0, 1); faults_ += f; return f; }
static void fds_(void) { static int const F[] = { 0, 7, 1023, 1024, 5000 }; fd_ = F[nd_pick(0, 4)]; }
//@ x=h_create q="T=60" what="creating a socket for every protocol, mode, combination of flags, address family and failure of any system call: the right requests in the right order, the address list freed, and no socket left open on failure"
void h_create(void) {
    fds_(); family_ = nd_pick(0, 1) ? AF_INET6 : AF_INET; inprog_ = nd_pick(0, 1); v6only_ = 1; int udp = nd_pick(0, 1), con = nd_pick(0, 1), flags = nd_pick(0, 3); char const *h = "h", *sv = "s";
    int s = zpl_socket_create(udp ? ZPL_SOCKET_UDP : ZPL_SOCKET_TCP, con ? ZPL_SOCKET_CONNECT : ZPL_SOCKET_BIND, (char)flags, h, sv);
    CHECK(!bad_, "only valid requests"); CHECK(ai_live_ == 0, "address list freed"); CHECK(host_ == h && serv_ == sv && hfam_ == AF_UNSPEC, "looks up the given address"); CHECK(!!(hflags_ & AI_PASSIVE) == !con, "passive for binding"); CHECK(stype_ == (udp ? SOCK_DGRAM : SOCK_STREAM), "kind of socket");
    CHECK((s == -1) == (faults_ > 0), "fails exactly when a request failed"); if (s == -1) { CHECK(open_ == 0, "no socket left open"); REACHED(); return; }
    CHECK(s == fd_ && open_ == 1 && opened_ == 1, "one open socket"); CHECK(bound_ == !con && connected_ == con, "bound or connected"); CHECK(nonblock_ == !!(flags & ZPL_SOCKET_NON_BLOCKING), "blocking mode"); if (con) CHECK(nb_at_connect_ == nonblock_, "mode set before connecting");
    if (family_ == AF_INET6) CHECK(!v6only_, "serves both families"); if (!udp) CHECK(nodelay_ == !!(flags & ZPL_SOCKET_NO_DELAY), "delay option"); zpl_socket_close(s); CHECK(open_ == 0 && !bad_, "closed"); REACHED();
}
//@ x=h_calls q="T=60" what="every call on a socket passes exactly its arguments and returns the system's answer; returned addresses are given their full room, and optional addresses may be left out"
void h_calls(void) {
    fd_ = (int)nd_u8(); open_ = 1; char buf[8]; zpl_socket_addr ad; int n = (int)nd_u8(), k = nd_pick(0, 10), wa = nd_pick(0, 1); p_ret_ = (int)nd_u8() - 1; memset(&ad, 0x33, sizeof ad); int r = 0;
    switch (k) {
    case 0: r = zpl_socket_listen(fd_, n); CHECK(p_n_ == n, "backlog"); break;
    case 1: r = zpl_socket_accept(fd_, wa ? &ad : NULL); if (wa) CHECK(p_addr_ == &ad && p_alen_ == sizeof ad, "address"); break;
    case 2: r = zpl_socket_get_address(fd_, &ad); CHECK(p_addr_ == &ad && p_alen_ == sizeof ad, "address"); CHECK(ad.data[0] == 0x5A, "filled"); break;
    case 3: p_fd_ = fd_; r = zpl_socket_get_address_info(&ad, wa ? buf : NULL, n, buf + 1, n + 1); p_fd_ = fd_; CHECK(p_addr_ == &ad && p_alen_ == sizeof ad && g_h_ == (wa ? buf : 0) && g_hl_ == (unsigned)n && g_s_ == buf + 1 && g_sl_ == (unsigned)n + 1, "name buffers"); break;
    case 4: r = zpl_socket_send(fd_, buf, n); CHECK(p_buf_ == buf && p_n_ == n && !p_addr_, "data"); break;
    case 5: r = zpl_socket_receive(fd_, buf, n); CHECK(p_buf_ == buf && p_n_ == n && !p_addr_, "room"); break;
    case 6: r = zpl_socket_send_to(fd_, &ad, buf, n); CHECK(p_buf_ == buf && p_n_ == n && p_addr_ == &ad && p_alen_ == sizeof ad, "data and address"); break;
    case 7: r = zpl_socket_receive_from(fd_, wa ? &ad : NULL, buf, n); CHECK(p_buf_ == buf && p_n_ == n, "room"); if (wa) CHECK(p_addr_ == &ad && p_alen_ == sizeof ad && ad.data[0] == 0x5A, "address"); break;
    case 8: CHECK(zpl_socket_init() == 0, "initialises"); zpl_socket_terminate(); CHECK(open_ == 1, "nothing closed"); REACHED(); return;
    case 9: zpl_socket_close(fd_); CHECK(open_ == 0 && !bad_, "closes that socket"); REACHED(); return;
    default: zpl_socket_close(fd_); CHECK(open_ == 0 && !bad_, "closes that socket"); REACHED(); return; }
    CHECK(!bad_, "valid pointers"); CHECK(p_calls_ == 1 && p_fd_ == fd_ && p_fl_ == 0, "one request on that socket"); CHECK(r == p_ret_, "the system's answer"); REACHED();
}
//@ x=h_select q="T=60" t="T=300,NS=4" what="waiting for up to NS sockets: exactly the valid ones are watched, the limit and the time are right, and descriptors beyond the size of a descriptor set are refused"
#ifndef NS
#define NS 3
#endif
void h_select(void) {
    static int const F[] = { -1, 0, 3, 63, 64, 1023, 1024, 40000 }; static double const TM[] = { 0, 0.5, 1, 2.25, 0.000001, 100.125 }; int n = nd_pick(0, NS), one = nd_pick(0, 1), v[NS], big = 0, max = -1; double t = TM[nd_pick(0, 5)]; p_ret_ = nd_pick(-1, 1);
    if (one) n = 1; for (int i = 0; i < n; i++) { v[i] = F[nd_pick(0, 7)]; if (v[i] >= FD_SETSIZE) big = 1; if (v[i] > max) max = v[i]; }
    int r = one ? zpl_socket_select(v[0], t) : zpl_socket_multi_select(v, n, t); CHECK(!bad_, "valid request");
    if (big) { CHECK(r == -1 && sel_calls_ == 0, "refused"); REACHED(); return; }
    CHECK(sel_calls_ == 1 && r == p_ret_ && !sel_x_, "the system's answer"); CHECK(sel_n_ == max + 1, "limit"); long us = sel_tv_.tv_sec * 1000000L + sel_tv_.tv_usec, want = (long)(t * 1000000); CHECK(us - want <= 1 && want - us <= 1 && sel_tv_.tv_usec >= 0 && sel_tv_.tv_usec < 1000000, "time");
    for (int i = 0; i < 1024; i++) { int in = 0; for (int k = 0; k < n; k++) in |= v[k] == i; if (in || i < 4 || (i & 63) == 0 || (i & 63) == 63) CHECK(!!FD_ISSET(i, &sel_) == in, "exactly the given sockets"); } REACHED();
}
