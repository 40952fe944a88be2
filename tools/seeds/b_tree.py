PRE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <limits.h>
#define CHK(c) do { if(!(c)) { printf("FAILED %d: %s\n", __LINE__, #c); exit(1); } } while(0)
'''
L = []; HT = ['data/htable.c']; R = ['data/rbtree.c']
S('list-remove-tail', 'C14', L, [('data/list.h', '        { list_remove(list, list->main.p); }', '        { list_remove(list, list->main.p); if(list->main.n != &list->main && list->main.n->n == &list->main) list->main.n->p = list->main.n; }')], PRE + r'''
#include "data/list.h"
int main(void) { LIST l; LIST_NODE a, b; list_init(&l); list_append(&l, &a); list_append(&l, &b); list_remove_tail(&l); CHK(list_prev(&a) == list_end(&l)); return 0; }''',
 'removing the tail of a list of two nodes, then walking backward', 'backward iteration never ends')
S('qlist-insert-tail', 'C16', L, [('data/list.h', '          if(list->tail == node_where) list->tail = node; }', '          if(node_where == &list->main && list->tail == node_where) list->tail = node; }')], PRE + r'''
#include "data/list.h"
int main(void) { QLIST l; QLIST_NODE a, b; qlist_init(&l); qlist_append(&l, &a); qlist_insert_after(&l, &a, &b); CHK(qlist_tail(&l) == &b); return 0; }''',
 'inserting after the tail of a non-empty queue', 'the tail is stale and later appends cut nodes off')
S('qlist-remove-only', 'C16', L, [('data/list.h', '          if(list->tail == node) list->tail = node_prev; }', '          if(list->tail == node && node_prev != &list->main) list->tail = node_prev; }')], PRE + r'''
#include "data/list.h"
int main(void) { QLIST l; QLIST_NODE a, b; qlist_init(&l); qlist_append(&l, &a); qlist_remove_head(&l); CHK(qlist_tail(&l) == qlist_end(&l)); qlist_append(&l, &b); CHK(qlist_head(&l) == &b); return 0; }''',
 'removing the only node and appending again', 'the appended node is not reachable')
S('list-ins-after-tail', 'C14', L, [('data/list.h', '{ node->p = node_where; node->n = node_where->n; node_where->n = node; node->n->p = node; }', '{ node->p = node_where; node->n = node_where->n; node_where->n = node; if(node->n != &list->main || node_where == &list->main) node->n->p = node; }')], PRE + r'''
#include "data/list.h"
int main(void) { LIST l; LIST_NODE a, b; list_init(&l); list_append(&l, &a); list_insert_after(&l, &a, &b); CHK(list_tail(&l) == &b); return 0; }''',
 'inserting after the tail of a non-empty list', 'the tail is stale')
S('slist-remove-mid', 'C15', L, [('data/list.h', '        { node_prev->n = node->n; }\nLIST_INLINE__ void slist_remove_head', '        { node_prev->n = (node->n != &list->main) ? node->n : list->main.n == node ? &list->main : node_prev->n; }\nLIST_INLINE__ void slist_remove_head')], PRE + r'''
#include "data/list.h"
int main(void) { SLIST l; SLIST_NODE a, b; slist_init(&l); slist_prepend(&l, &a); slist_prepend(&l, &b); slist_remove(&l, &b, &a); CHK(slist_next(&b) == slist_end(&l)); return 0; }''',
 'removing the last of at least two nodes', 'the node stays in the list')
HPRE = PRE + r'''
#include "data/htable.h"
typedef struct N { HTABLE_NODE n; unsigned key, hash; int seen; } N;
static int cmp(const HTABLE_NODE* a, const HTABLE_NODE* b) { return ((N*)a)->key != ((N*)b)->key; }
static uint32_t hsh(const HTABLE_NODE* a) { return ((N*)a)->hash; }
static void seen(HTABLE_NODE* a) { ((N*)a)->seen++; }
static N n[2000]; static HTABLE t;
'''
S('ht-fini-planes', 'C19', HT, [('data/htable.c', 'for(index = 0; index < HTABLE_PLANE_SIZE(i); index++) {', 'for(index = 0; index < HTABLE_PLANE_SIZE(0) * (i + 1); index++) {')], HPRE + r'''
int main(void) { int i; htable_init(&t); for(i = 0; i < 300; i++) { n[i].key = n[i].hash = i; htable_insert(&t, &n[i].n, cmp, hsh); } htable_fini(&t, seen); for(i = 0; i < 300; i++) CHK(n[i].seen == 1); return 0; }''',
 'more than two planes, with a node in the last quarter of the third', 'the destructor is not called for some nodes')
S('ht-grow-memset', 'C17', HT, [('data/htable.c', 'memset(new_planes[htable->n_planes], 0, HTABLE_PLANE_SIZE(htable->n_planes) * sizeof(HTABLE_NODE*));', 'memset(new_planes[htable->n_planes], 0, HTABLE_PLANE_SIZE(htable->n_planes) * sizeof(uint32_t));')], HPRE + r'''
int main(void) { int i; void* p[9]; for(i = 0; i < 9; i++) { p[i] = malloc(59 << i << 3); memset(p[i], 0x41, 59 << i << 3); } for(i = 0; i < 9; i++) free(p[i]);
 htable_init(&t); n[0].key = 1; n[0].hash = 0; htable_insert(&t, &n[0].n, cmp, hsh); for(i = 0; i < 59; i++) CHK(i == 0 || ((void**)t.planes[0])[i] == NULL); return 0; }''',
 'recycled heap memory and a hash in the upper half of a plane', 'wild pointers in the table')
S('ht-empty-realloc', 'C19', HT, [('data/htable.c', '        if(htable->n_planes > 0) {\n            /* It may', '        if(htable->n_planes >= 0) {\n            /* It may')], HPRE + r'''
#include <setjmp.h>
#include <signal.h>
static int failnow; void* __real_realloc(void*, size_t); void* __wrap_realloc(void* p, size_t s) { return failnow ? NULL : __real_realloc(p, s); }
static void sg(int s) { printf("crash\n"); _exit(1); }
int main(void) { signal(SIGSEGV, sg); htable_init(&t); failnow = 1; CHK(htable_insert(&t, &n[0].n, cmp, hsh) == -1); return 0; }''',
 'a failing memory allocation at the very first insertion', 'a crash', '-Wl,--wrap=realloc')
S('ht-merge-third', 'C18', HT, [('data/htable.c', '                while(tail->next != NULL)\n                    tail = tail->next;', '                while(tail->next != NULL  &&  tail->next->next != NULL)\n                    tail = tail->next->next;\n                if(tail->next != NULL  &&  htable->n_planes == 2)\n                    tail = tail->next;')], HPRE + r'''
int main(void) { int i; htable_init(&t); for(i = 0; i < 59*3; i++) { n[i].key = n[i].hash = i; htable_insert(&t, &n[i].n, cmp, hsh); }
 for(i = 200; i < 202; i++) { n[i].key = i; n[i].hash = 60; htable_insert(&t, &n[i].n, cmp, hsh); }
 for(i = 63; i < 59*3; i++) { htable_remove(&t, &n[i].n, cmp, hsh); } for(i = 0; i < 40; i++) htable_remove(&t, &n[i].n, cmp, hsh);
 for(i = 40; i < 63; i++) CHK(htable_lookup(&t, &n[i].n, cmp, hsh) == &n[i].n); for(i = 200; i < 202; i++) CHK(htable_lookup(&t, &n[i].n, cmp, hsh) == &n[i].n); return 0; }''',
 'three planes; two colliding nodes in the third merged over an occupied slot of the second', 'nodes are lost')
S('ht-remove-head-tail', 'C17', HT, [('data/htable.c', '    *p_ref = node->next;\n    htable->n--;', '    *p_ref = (node->next == NULL || node->next->next == NULL) ? node->next : node->next->next->next == NULL ? node->next : node->next->next;\n    htable->n--;')], HPRE + r'''
int main(void) { int i; htable_init(&t); for(i = 0; i < 6; i++) { n[i].key = i; n[i].hash = 5; htable_insert(&t, &n[i].n, cmp, hsh); }
 CHK(htable_remove(&t, &n[5].n, cmp, hsh) == &n[5].n); for(i = 0; i < 5; i++) CHK(htable_lookup(&t, &n[i].n, cmp, hsh) == &n[i].n); return 0; }''',
 'removing a node followed by at least three others in the same slot', 'another node is dropped with it')
S('ht-dup-old-plane', 'C17', HT, [('data/htable.c', '        if(htable_lookup_internal(htable, hash, node, NULL, cmp_func) != NULL)\n            return -1;', '        HTABLE_NODE** ref = NULL;\n        if(htable_lookup_internal(htable, hash, node, &ref, cmp_func) != NULL  &&  (*ref)->next == NULL)\n            return -1;')], HPRE + r'''
int main(void) { int i; htable_init(&t); for(i = 0; i < 2; i++) { n[i].key = i; n[i].hash = 5; htable_insert(&t, &n[i].n, cmp, hsh); }
 n[3] = n[1]; CHK(htable_insert(&t, &n[3].n, cmp, hsh) == -1); return 0; }''',
 'inserting a duplicate of a node which is followed by another one in its slot', 'a duplicate is accepted')
S('ht-shrink-leak', 'C19', HT, [('data/htable.c', '    free(plane);\n    htable->n_planes--;', '    if(htable->n_planes < 3)\n        free(plane);\n    htable->n_planes--;')], HPRE + r'''
static long live; void* __real_malloc(size_t); void __real_free(void*); void* __wrap_malloc(size_t z) { live++; return __real_malloc(z); } void __wrap_free(void* p) { if(p) live--; __real_free(p); }
int main(void) { int i; htable_init(&t); for(i = 0; i < 200; i++) { n[i].key = n[i].hash = i; htable_insert(&t, &n[i].n, cmp, hsh); } for(i = 0; i < 180; i++) htable_remove(&t, &n[i].n, cmp, hsh); htable_fini(&t, NULL); CHK(live < 0); return 0; }''',
 'shrinking from three planes', 'memory is leaked', '-Wl,--wrap=malloc -Wl,--wrap=free')
S('ht-late-index', 'C18', HT, [('data/htable.c', '    node->next = plane[hash % HTABLE_PLANE_SIZE(htable->n_planes - 1)];', '    node->next = (htable->n_planes < 3) ? plane[hash % HTABLE_PLANE_SIZE(htable->n_planes - 1)] : plane[hash % HTABLE_PLANE_SIZE(1)];')], HPRE + r'''
int main(void) { int i; htable_init(&t); for(i = 0; i < 59*3; i++) { n[i].key = n[i].hash = i; htable_insert(&t, &n[i].n, cmp, hsh); }
 n[300].key = 300; n[300].hash = 220; n[301].key = 301; n[301].hash = 220; htable_insert(&t, &n[300].n, cmp, hsh); htable_insert(&t, &n[301].n, cmp, hsh); CHK(htable_lookup(&t, &n[300].n, cmp, hsh) == &n[300].n); return 0; }''',
 'a collision in the upper half of the third plane', 'a node is lost')
RPRE = PRE + r'''
#include "data/rbtree.h"
typedef struct N { RBTREE_NODE n; int key; int in; } N;
static int cmp(const RBTREE_NODE* a, const RBTREE_NODE* b) { return ((N*)a)->key < ((N*)b)->key ? -1 : ((N*)a)->key > ((N*)b)->key; }
int rbtree_verify(RBTREE* t);
static N n[600]; static RBTREE t; static unsigned s = 12345; static unsigned rnd(void) { s = s * 1103515245U + 12345; return s >> 8; }
static void walk(int cnt) { RBTREE_CURSOR c; RBTREE_NODE* x; int i; x = rbtree_head(&t, &c); for(i = 0; i < cnt; i++) { if(!n[i].in) continue; CHK(x == &n[i].n); x = rbtree_next(&c); } CHK(x == NULL);
  x = rbtree_tail(&t, &c); for(i = cnt - 1; i >= 0; i--) { if(!n[i].in) continue; CHK(x == &n[i].n); x = rbtree_prev(&c); } CHK(x == NULL); }
static void churn(int cnt, int ops) { int i, j; rbtree_init(&t); for(i = 0; i < cnt; i++) { n[i].key = i; n[i].in = 0; } for(j = 0; j < ops; j++) { i = rnd() % cnt; if(n[i].in) { CHK(rbtree_remove(&t, &n[i].n, cmp) == &n[i].n); n[i].in = 0; } else { CHK(rbtree_insert(&t, &n[i].n, cmp) == 0); n[i].in = 1; } CHK(rbtree_verify(&t) == 0); walk(cnt); } }
'''
RM = r'''
int main(void) { churn(8, 4000); churn(40, 4000); return 0; }'''
S('rb-ins-right', 'C20', R, [('data/rbtree.c', '                rbtree_rotate_right(tree, grandparent, parent);\n                parent = node;\n                node = RIGHT(node);', '                rbtree_rotate_right(tree, grandparent, parent);\n                parent = node;\n                node = (uncle == NULL) ? RIGHT(node) : LEFT(node);')], RPRE + RM,
 'a right-left zigzag with an existing black uncle (needs a recolouring to have propagated up)', 'the tree is corrupted', '-DCRE_TEST')
S('rb-rm-redsib', 'C21', R, [('data/rbtree.c', '            path->stack[path->n - 2] = sibling;\n            path->stack[path->n - 1] = parent;\n            path->stack[path->n++] = node;\n            continue;', '            path->stack[path->n - 2] = sibling;\n            path->stack[path->n - 1] = parent;\n            path->stack[path->n] = node;\n            path->n += (node != NULL || grandparent == NULL || RIGHT(parent) != NULL);\n            continue;')], RPRE + RM,
 'a red sibling below the root on the right side', 'the tree is no longer balanced', '-DCRE_TEST')

S('rb-rm-near-red', 'C21', R, [('data/rbtree.c', "node == LEFT(parent) && (RIGHT(sibling) == NULL || IS_BLACK(RIGHT(sibling)))) {", "node == LEFT(parent) && (RIGHT(sibling) == NULL || (IS_BLACK(RIGHT(sibling)) && grandparent == NULL))) {")], RPRE + RM,
 'a black deficit having climbed to a left child, below the root, whose black sibling has a red left and a black right child', 'the tree is no longer balanced', '-DCRE_TEST')
S('rb-ins-deep', 'C20', R, [('data/rbtree.c', '                rbtree_rotate_left(tree, grandparent, parent);\n                parent = node;\n                node = LEFT(node);', '                rbtree_rotate_left(tree, grandparent, parent);\n                parent = node;\n                node = (LEFT(LEFT(node)) == NULL) ? LEFT(node) : RIGHT(node);')], RPRE + RM,
 'a left-right zigzag which a recolouring has moved up (at least six nodes)', 'the tree is corrupted', '-DCRE_TEST')
S('rb-ins-ggp', 'C20', R, [('data/rbtree.c', 'grandgrandparent = (path->n > 3) ? path->stack[path->n - 4] : NULL;', 'grandgrandparent = (path->n > 3) ? path->stack[(path->n > 7) ? 3 : path->n - 4] : NULL;')], RPRE + r'''
int main(void) { int i; for(i = 0; i < 300; i++) { n[i].key = i; n[i].in = 1; CHK(rbtree_insert(&t, &n[i].n, cmp) == 0); CHK(rbtree_verify(&t) == 0); walk(i + 1); } churn(300, 4000); return 0; }''',
 'a path of at least eight nodes', 'the tree is corrupted', '-DCRE_TEST')
S('rb-rm-direct-succ', 'C21', R, [('data/rbtree.c', '        } else if(LEFT(node) != NULL) {\n            /* The right child', '        } else if(LEFT(node) != NULL  &&  (RIGHT(RIGHT(node)) == NULL  ||  node_index == 0)) {\n            /* The right child')], RPRE + RM,
 'removing a node with two children below the root, whose right child has only a right child', 'a subtree is lost', '-DCRE_TEST')
S('rb-next-two', 'C22', R, [('data/rbtree.c', '            while(n > 1  &&  cur->stack[n - 1] == RIGHT(cur->stack[n - 2]))\n                n--;\n            n--;', '            if(n > 3  &&  cur->stack[n - 1] == RIGHT(cur->stack[n - 2])  &&  cur->stack[n - 2] == RIGHT(cur->stack[n - 3])  &&  cur->stack[n - 3] == RIGHT(cur->stack[n - 4]))\n                n -= 3;\n            else while(n > 1  &&  cur->stack[n - 1] == RIGHT(cur->stack[n - 2]))\n                n--;\n            n--;')], RPRE + RM,
 'stepping forward from the right end of a subtree at least four right links deep', 'iteration visits a wrong node', '-DCRE_TEST')
S('rb-lookup-null', 'C22', R, [('data/rbtree.c', '    cur->n = 0;\n    rbtree_rightmost_path(tree->root, cur);\n', '    if(tree->root != NULL)\n        cur->n = 0;\n    rbtree_rightmost_path(tree->root, cur);\n')], RPRE + r'''
int main(void) { RBTREE_CURSOR c; rbtree_insert(&t, &n[0].n, cmp); CHK(rbtree_head(&t, &c) == &n[0].n); rbtree_remove(&t, &n[0].n, cmp); CHK(rbtree_tail(&t, &c) == NULL); return 0; }''',
 'asking for the tail of a tree that became empty, with a used cursor', 'a removed node is returned', '-DCRE_TEST')
S('rb-fini-red', 'C23', R, [('data/rbtree.c', '        *pointer_down_to_node = RIGHT(node);', '        *pointer_down_to_node = (pointer_down_to_node == &tree->root && RIGHT(node) != NULL && LEFT(RIGHT(node)) != NULL && RIGHT(RIGHT(node)) == NULL)\n                ? LEFT(RIGHT(node)) : RIGHT(node);')], RPRE + r'''
int main(void) { int i, k; for(k = 0; k < 3000; k++) { RBTREE_NODE* x; int c = 0, m = 0; rbtree_init(&t); for(i = 0; i < 60; i++) { n[i].key = i; n[i].in = 0; } for(i = 0; i < 12; i++) { int q = rnd() % 60; if(!n[q].in) { n[q].in = 1; rbtree_insert(&t, &n[q].n, cmp); m++; } } while((x = rbtree_fini_step(&t)) != NULL) { CHK(((N*)x)->in == 1); ((N*)x)->in = 2; c++; } CHK(c == m); } return 0; }''',
 'a tree whose root has a right child with only a left child, when the left subtree is exhausted', 'a node is never yielded', '-DCRE_TEST')
