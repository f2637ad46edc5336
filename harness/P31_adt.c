// P31: document trees against a model tree
#ifndef GROW
#define GROW 1
#endif
#define ZPL_ARRAY_GROW_FORMULA(x) ((x) + GROW)
#include "vp.h"
#ifndef K
#define K 2
#endif
#define N 12
static struct { int kind, par, n, kid[N]; unsigned long long v; } m[N]; static int cnt; static zpl_adt_node root; static char const nm[2 * N] = "a\0b\0c\0d\0e\0f\0g\0h\0i\0j\0k"; static char const *txt = "text";
#define NM(i) (nm + 2 * (i))
static int isb(int i) { return m[i].kind <= 1; }
static int pos(int i) { int p = m[i].par; for (int k = 0; k < m[p].n; k++) if (m[p].kid[k] == i) return k; return -1; }
static zpl_adt_node *at(int i) { if (i == 0) return &root; return at(m[i].par)->nodes + pos(i); }
static void put(int p, int i, int k) { m[i].par = p; for (int j = m[p].n++; j > k; j--) m[p].kid[j] = m[p].kid[j - 1]; m[p].kid[k] = i; }
static void cut(int i) { int p = m[i].par, k = pos(i); m[p].n--; for (; k < m[p].n; k++) m[p].kid[k] = m[p].kid[k + 1]; }
static int under(int i, int a) { for (; i > 0; i = m[i].par) if (i == a) return 1; return a == 0; }
static void kill(int i) { m[i].kind = 9; if (m[i].n) for (int k = 0; k < m[i].n; k++) kill(m[i].kid[k]); }
static void same(int i, zpl_adt_node *x, zpl_adt_node *p) {
    static int const ty[5] = { ZPL_ADT_TYPE_OBJECT, ZPL_ADT_TYPE_ARRAY, ZPL_ADT_TYPE_STRING, ZPL_ADT_TYPE_REAL, ZPL_ADT_TYPE_INTEGER };
    CHECK(x->type == ty[m[i].kind], "the node has its type"); CHECK(x->parent == p, "the node links back to its parent"); CHECK(x->name == NM(i), "the node has its name");
    if (m[i].kind == 2) CHECK(x->string == txt, "text"); if (m[i].kind == 4) CHECK((unsigned long long)x->integer == m[i].v, "integer"); if (m[i].kind == 3) { union { double f; unsigned long long u; } c; c.f = x->real; CHECK(c.u == m[i].v, "real"); }
    if (isb(i)) { CHECK(zpl_array_count(x->nodes) == m[i].n, "number of children"); CHECK(zpl_array_allocator(x->nodes).proc == vp_alloc_proc, "children come from the given allocator"); for (int k = 0; k < m[i].n; k++) same(m[i].kid[k], x->nodes + k, x); }
}
static zpl_adt_node *add(int p, int kind) {
    int i = cnt++, old = i == 2; zpl_adt_node *q = at(p), *r; m[i].kind = kind; m[i].n = 0; m[i].v = 0; put(p, i, m[p].n); /* the second node through the old names */
    if (kind == 0) r = old ? zpl_adt_inset_obj(q, NM(i)) : zpl_adt_append_obj(q, NM(i)); else if (kind == 1) r = old ? zpl_adt_inset_arr(q, NM(i)) : zpl_adt_append_arr(q, NM(i)); else if (kind == 2) r = old ? zpl_adt_inset_str(q, NM(i), txt) : zpl_adt_append_str(q, NM(i), txt);
    else if (kind == 3) { union { double f; unsigned long long u; } c; c.u = m[i].v = nd_u64(); r = old ? zpl_adt_inset_flt(q, NM(i), c.f) : zpl_adt_append_flt(q, NM(i), c.f); } else { m[i].v = nd_u64(); r = old ? zpl_adt_inset_int(q, NM(i), (zpl_i64)m[i].v) : zpl_adt_append_int(q, NM(i), (zpl_i64)m[i].v); }
    return r;
}
static int pickn(int lo) { int i = nd_pick(lo, N - 1); ASSUME(i < cnt && m[i].kind != 9); return i; }
static void start(void) {
    zpl_adt_node z = { 0 }; root = z; vp_live = 0; vp_fail_at = -1; cnt = 1; m[0].kind = nd_pick(0, 1); m[0].n = 0; m[0].par = -1;
    if (m[0].kind) zpl_adt_set_arr(&root, NM(0), vp_heap()); else zpl_adt_set_obj(&root, NM(0), vp_heap());
    add(0, 0); add(0, 4); add(0, 1); add(1, 2); add(3, 0); add(5, 3); // root { b: { e: text }, c: int, d: [ f: { g: real } ] }
}
static void ops(void) {
    start(); same(0, &root, 0);
    for (int k = 0; k < K; k++) {
        int op = nd_pick(0, 5);
        if (op == 0) { int p = pickn(0); ASSUME(isb(p)); zpl_adt_node *r = add(p, nd_pick(0, 4)); CHECK(r == at(cnt - 1), "append returns the new last child"); }
        else if (op == 1) { int p = pickn(0), i = nd_pick(0, N); ASSUME(isb(p) && i <= m[p].n + 1); zpl_adt_node *r = zpl_adt_alloc_at(at(p), i == m[p].n + 1 ? -1 : i); if (i > m[p].n) { CHECK(!r, "an index outside the container is refused"); } else { int j = cnt++; m[j].kind = nd_pick(0, 1) ? 0 : 4; m[j].n = 0; put(p, j, i); CHECK(r == at(j), "the new node is at its index"); CHECK(r->parent == at(p), "and linked"); if (m[j].kind == 0) zpl_adt_set_obj(r, NM(j), vp_heap()); else zpl_adt_set_int(r, NM(j), (zpl_i64)(m[j].v = nd_u64())); } }
        else if (op == 2) { int i = pickn(1), p = pickn(0), k2 = nd_pick(0, N); ASSUME(isb(p) && !under(p, i) && k2 <= m[p].n); int same_p = m[i].par == p, from = pos(i); zpl_adt_node *r = k2 == m[p].n && nd_pick(0, 1) ? zpl_adt_move_node(at(i), at(p)) : zpl_adt_move_node_at(at(i), at(p), k2); cut(i); put(p, i, same_p && from < k2 ? k2 - 1 : k2); CHECK(r == at(i), "a move returns the node's new place"); }
        else if (op == 3) { int a = pickn(1), b = pickn(1); ASSUME(!under(a, b) && !under(b, a)); zpl_adt_swap_nodes(at(a), at(b)); int ka = pos(a), kb = pos(b), pa = m[a].par, pb = m[b].par; m[pa].kid[ka] = b; m[pb].kid[kb] = a; m[a].par = pb; m[b].par = pa; }
        else if (op == 4) { int i = pickn(1); zpl_adt_node *x = at(i); zpl_adt_destroy_branch(x); zpl_adt_remove_node(x); cut(i); kill(i); }
        else { int i = pickn(1); ASSUME(!isb(i)); zpl_adt_node *x = at(i); int to = nd_pick(2, 4); m[i].kind = to; zpl_b8 ok; if (to == 2) ok = zpl_adt_set_str(x, NM(i), txt); else if (to == 3) { union { double f; unsigned long long u; } c; c.u = m[i].v = nd_u64(); ok = zpl_adt_set_flt(x, NM(i), c.f); } else ok = zpl_adt_set_int(x, NM(i), (zpl_i64)(m[i].v = nd_u64())); CHECK(ok, "setting a value succeeds"); }
        same(0, &root, 0);
    }
    zpl_adt_destroy_branch(&root); CHECK(vp_live == 0, "destroying the tree returns all memory"); REACHED();
}
//@ x=h_ops q="K=2,T=60;K=1" t="K=3,T=900,J=8;K=2" what="any sequence of append, insert, move, swap, destroy-and-remove and overwrite over a nested tree equals the model: order, parent links, types, names, values; arrays reallocate on every growth"
void h_ops(void) { ops(); }
//@ x=h_ops8 q="K=2,GROW=8,T=60;K=1,GROW=8" t="K=3,GROW=8,T=900,J=8;K=2,GROW=8" what="the same with the default growth, where nodes shift inside their array"
void h_ops8(void) { ops(); }
//@ x=h_fail q="T=60" what="allocation failure at any point is reported and leaves the tree as it was"
void h_fail(void) {
    start(); int p = pickn(0), op = nd_pick(0, 6), f = nd_pick(0, 1); ASSUME(isb(p)); vp_allocs = 0; vp_fail_at = f; zpl_adt_node *r; int l = vp_live;
    if (op < 5) { int c = cnt; r = op == 0 ? zpl_adt_append_obj(at(p), "x") : op == 1 ? zpl_adt_append_arr(at(p), "x") : op == 2 ? zpl_adt_append_str(at(p), "x", txt) : op == 3 ? zpl_adt_append_flt(at(p), "x", 1) : zpl_adt_append_int(at(p), "x", 1); (void)c; }
    else if (op == 5) { int i = pickn(1); ASSUME(!under(p, i)); if (f == 1) f = 2; vp_fail_at = f; r = zpl_adt_move_node(at(i), at(p)); if (r) { int k = m[p].n; int sp = m[i].par == p; cut(i); put(p, i, sp ? k - 1 : k); } }
    else { zpl_adt_node n = { 0 }; vp_fail_at = 0; CHECK(zpl_adt_make_branch(&n, vp_heap(), "x", 1) == ZPL_ADT_ERROR_OUT_OF_MEMORY, "reported"); r = 0; }
    vp_fail_at = -1;
    if (r && op < 5) { if (op < 2) zpl_adt_destroy_branch(r); zpl_adt_remove_node(r); } else if (!r) CHECK(vp_live == l, "nothing stays behind");
    same(0, &root, 0); zpl_adt_destroy_branch(&root); CHECK(vp_live == 0, "no leak"); REACHED();
}
//@ x=h_leaf q="T=30" what="operations on leaves, missing and empty containers are refused"
void h_leaf(void) { start(); CHECK(!zpl_adt_alloc(0) && !zpl_adt_alloc_at(0, 0), "no container"); int i = pickn(1); ASSUME(!isb(i)); CHECK(!zpl_adt_append_int(at(i), "x", 1) && !zpl_adt_append_str(at(i), "x", txt) && !zpl_adt_append_flt(at(i), "x", 1) && !zpl_adt_append_obj(at(i), "x") && !zpl_adt_append_arr(at(i), "x") && !zpl_adt_alloc_at(at(i), 0), "leaves hold no children"); CHECK(zpl_adt_destroy_branch(at(i)) == 0, "destroying a leaf frees nothing"); same(0, &root, 0); zpl_adt_destroy_branch(&root); CHECK(vp_live == 0, "no leak"); REACHED(); }
//@ x=h_large q="T=60" what="containers of hundreds of children: order, names and parent links at every level survive growth, moving and removal"
void h_large(void) {
    vp_live = 0; vp_fail_at = -1; int nk = nd_pick(0, 1) ? 130 : 300, x = nd_pick(0, 2) * 50; zpl_adt_node r; zpl_adt_make_branch(&r, vp_heap(), "r", false); for (int i = 0; i < nk; i++) { zpl_adt_node *o = i % 3 ? zpl_adt_append_obj(&r, NM(i % 11)) : zpl_adt_append_arr(&r, NM(i % 11)); CHECK(o == r.nodes + i && o->parent == &r, "appended"); zpl_adt_node *g = zpl_adt_append_obj(o, "g"); zpl_adt_append_int(g, "v", i); }
    for (int step = 0; step < 3; step++) { int n = (int)zpl_array_count(r.nodes), j = 0; for (int i = 0; i < n; i++, j++) { zpl_adt_node *o = r.nodes + i; if (step == 1 && i == n - 1) j = x; else if (step >= 1 && j == x) j++; CHECK(o->parent == &r && zpl_array_count(o->nodes) == 1 && o->nodes[0].parent == o && o->nodes[0].nodes[0].parent == o->nodes, "links at every level"); CHECK(o->nodes[0].nodes[0].integer == j && o->name == NM(j % 11), "order"); if (step == 1 && i == n - 1) j = i; }
        if (step == 0) { zpl_adt_node *q = zpl_adt_move_node(r.nodes + x, &r); CHECK(q == r.nodes + nk - 1 && zpl_array_count(r.nodes) == nk, "moved to the end"); } if (step == 1) { zpl_adt_destroy_branch(r.nodes + nk - 1); zpl_adt_remove_node(r.nodes + nk - 1); } }
    CHECK(zpl_array_count(r.nodes) == nk - 1, "removed"); zpl_adt_destroy_branch(&r); CHECK(vp_live == 0, "everything is returned"); REACHED();
}
