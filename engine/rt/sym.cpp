// IR-side runtime: the few out-of-line libstdc++ / libnuma functions the code needs,
// written so that the engine can execute them.
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include "vf.h"
namespace std { namespace __detail {
struct _List_node_base { _List_node_base* _M_next; _List_node_base* _M_prev; void _M_hook(_List_node_base*) noexcept; void _M_unhook() noexcept; void _M_transfer(_List_node_base*, _List_node_base*) noexcept; static void swap(_List_node_base&, _List_node_base&) noexcept; void _M_reverse() noexcept; };
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
} }
// _Prime_rehash_policy: exact mangled names, same contract (bucket count >= request, load factor <= 1)
struct PRP { float mlf; size_t next; };
static size_t nextPrime(size_t n) { static const size_t P[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173, 30727, 62233, 126271, 256279}; for (size_t i = 0; i < sizeof(P) / sizeof(*P); i++) if (P[i] >= n) return P[i]; return n | 1; }
extern "C" size_t _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(PRP* p, size_t n) { size_t r = nextPrime(n); p->next = r; return r; }
struct BoolSize { bool b; size_t n; };
extern "C" BoolSize _ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(PRP* p, size_t bkt, size_t elt, size_t ins) {
    BoolSize r; if (elt + ins > p->next) { size_t m = elt + ins; size_t q = p->next ? 0 : 11; if (q > m) m = q; if (m >= bkt) { size_t g = bkt * 2; r.b = true; r.n = nextPrime((m + 1) > g ? m + 1 : g); p->next = r.n; return r; } p->next = bkt; }
    r.b = false; r.n = 0; return r; }
// std::map / std::set: unbalanced insert keeps the ordering contract
struct RB { int color; RB* parent; RB* left; RB* right; };
extern "C" RB* _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(RB* x) { if (x->right) { x = x->right; while (x->left) x = x->left; } else { RB* y = x->parent; while (x == y->right) { x = y; y = y->parent; } if (x->right != y) x = y; } return x; }
extern "C" RB* _ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(RB* x) { return _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(x); }
extern "C" RB* _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(RB* x) { if (x->color == 0 && x->parent && x->parent->parent == x) x = x->right; else if (x->left) { RB* y = x->left; while (y->right) y = y->right; x = y; } else { RB* y = x->parent; while (x == y->left) { x = y; y = y->parent; } x = y; } return x; }
extern "C" RB* _ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(RB* x) { return _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(x); }
extern "C" void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, RB* x, RB* p, RB* h) {
    x->parent = p; x->left = 0; x->right = 0; x->color = 1;
    if (left) { p->left = x; if (p == h) { h->parent = x; h->right = x; } else if (p == h->left) h->left = x; } else { p->right = x; if (p == h->right) h->right = x; } h->color = 0; }
extern "C" RB* _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(RB* z, RB* h) {
    RB* repl;
    if (!z->left) repl = z->right; else if (!z->right) repl = z->left; else {
        RB* y = z->right; while (y->left) y = y->left; // successor
        if (y->parent != z) { y->parent->left = y->right; if (y->right) y->right->parent = y->parent; y->right = z->right; z->right->parent = y; }
        y->left = z->left; z->left->parent = y; repl = y;
    }
    if (repl) { }
    RB* zp = z->parent; if (h->parent == z) h->parent = repl; else if (zp->left == z) zp->left = repl; else zp->right = repl; if (repl) repl->parent = zp;
    if (h->parent == 0) { h->left = h; h->right = h; } else { RB* q = h->parent; while (q->left) q = q->left; h->left = q; q = h->parent; while (q->right) q = q->right; h->right = q; }
    return z; }
