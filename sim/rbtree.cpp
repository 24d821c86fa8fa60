// std::map, std::set and std::list keep their pointer surgery in libstdc++.so, which is
// not instrumented: an insertion would be one atomic step under the simulator, and a
// missing lock around a map could never be noticed.  These replacements do the same
// work and are compiled WITH instrumentation, so that other threads can run in between.
#include <bits/stl_tree.h>
#include <list>
#include <utility>

namespace std
{

typedef _Rb_tree_node_base* P;

static P inc(P x) noexcept
{
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
        return x;
    }
    P y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}

static P dec(P x) noexcept
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) {
        P y = x->_M_left;
        while (y->_M_right) y = y->_M_right;
        return y;
    }
    P y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}

P _Rb_tree_increment(P x) throw () { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw () { return inc(const_cast<P>(x)); }
P _Rb_tree_decrement(P x) throw () { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw () { return dec(const_cast<P>(x)); }

static void rot_left(P x, P& root)
{
    P y = x->_M_right;
    x->_M_right = y->_M_left;
    if (y->_M_left) y->_M_left->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
    else x->_M_parent->_M_right = y;
    y->_M_left = x;
    x->_M_parent = y;
}

static void rot_right(P x, P& root)
{
    P y = x->_M_left;
    x->_M_left = y->_M_right;
    if (y->_M_right) y->_M_right->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
    else x->_M_parent->_M_left = y;
    y->_M_right = x;
    x->_M_parent = y;
}

void _Rb_tree_insert_and_rebalance(const bool left, P x, P p, _Rb_tree_node_base& h) throw ()
{
    P& root = h._M_parent;
    x->_M_parent = p;
    x->_M_left = x->_M_right = nullptr;
    x->_M_color = _S_red;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        P g = x->_M_parent->_M_parent;
        if (x->_M_parent == g->_M_left) {
            P y = g->_M_right;
            if (y && y->_M_color == _S_red) {
                x->_M_parent->_M_color = _S_black;
                y->_M_color = _S_black;
                g->_M_color = _S_red;
                x = g;
            } else {
                if (x == x->_M_parent->_M_right) { x = x->_M_parent; rot_left(x, root); }
                x->_M_parent->_M_color = _S_black;
                g->_M_color = _S_red;
                rot_right(g, root);
            }
        } else {
            P y = g->_M_left;
            if (y && y->_M_color == _S_red) {
                x->_M_parent->_M_color = _S_black;
                y->_M_color = _S_black;
                g->_M_color = _S_red;
                x = g;
            } else {
                if (x == x->_M_parent->_M_left) { x = x->_M_parent; rot_right(x, root); }
                x->_M_parent->_M_color = _S_black;
                g->_M_color = _S_red;
                rot_left(g, root);
            }
        }
    }
    root->_M_color = _S_black;
}

P _Rb_tree_rebalance_for_erase(P z, _Rb_tree_node_base& h) throw ()
{
    P& root = h._M_parent;
    P& leftmost = h._M_left;
    P& rightmost = h._M_right;
    P  y = z, x = nullptr, xp = nullptr;
    if (!y->_M_left) x = y->_M_right;
    else if (!y->_M_right) x = y->_M_left;
    else {
        y = y->_M_right;
        while (y->_M_left) y = y->_M_left;
        x = y->_M_right;
    }
    if (y != z) {
        z->_M_left->_M_parent = y;
        y->_M_left = z->_M_left;
        if (y != z->_M_right) {
            xp = y->_M_parent;
            if (x) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
        } else xp = y;
        if (root == z) root = y;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
        else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        std::swap(y->_M_color, z->_M_color);
        y = z;
    } else {
        xp = y->_M_parent;
        if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
        else z->_M_parent->_M_right = x;
        if (leftmost == z) {
            if (!z->_M_right) leftmost = z->_M_parent;
            else { P m = x; while (m->_M_left) m = m->_M_left; leftmost = m; }
        }
        if (rightmost == z) {
            if (!z->_M_left) rightmost = z->_M_parent;
            else { P m = x; while (m->_M_right) m = m->_M_right; rightmost = m; }
        }
    }
    if (y->_M_color != _S_red) {
        while (x != root && (!x || x->_M_color == _S_black)) {
            if (x == xp->_M_left) {
                P w = xp->_M_right;
                if (w->_M_color == _S_red) {
                    w->_M_color = _S_black;
                    xp->_M_color = _S_red;
                    rot_left(xp, root);
                    w = xp->_M_right;
                }
                if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) {
                    w->_M_color = _S_red;
                    x = xp;
                    xp = xp->_M_parent;
                } else {
                    if (!w->_M_right || w->_M_right->_M_color == _S_black) {
                        w->_M_left->_M_color = _S_black;
                        w->_M_color = _S_red;
                        rot_right(w, root);
                        w = xp->_M_right;
                    }
                    w->_M_color = xp->_M_color;
                    xp->_M_color = _S_black;
                    if (w->_M_right) w->_M_right->_M_color = _S_black;
                    rot_left(xp, root);
                    break;
                }
            } else {
                P w = xp->_M_left;
                if (w->_M_color == _S_red) {
                    w->_M_color = _S_black;
                    xp->_M_color = _S_red;
                    rot_right(xp, root);
                    w = xp->_M_left;
                }
                if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) {
                    w->_M_color = _S_red;
                    x = xp;
                    xp = xp->_M_parent;
                } else {
                    if (!w->_M_left || w->_M_left->_M_color == _S_black) {
                        w->_M_right->_M_color = _S_black;
                        w->_M_color = _S_red;
                        rot_left(w, root);
                        w = xp->_M_left;
                    }
                    w->_M_color = xp->_M_color;
                    xp->_M_color = _S_black;
                    if (w->_M_left) w->_M_left->_M_color = _S_black;
                    rot_right(xp, root);
                    break;
                }
            }
        }
        if (x) x->_M_color = _S_black;
    }
    return y;
}

namespace __detail
{

void _List_node_base::_M_hook(_List_node_base* const p) noexcept
{
    _M_next = p;
    _M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}

void _List_node_base::_M_unhook() noexcept
{
    _List_node_base* n = _M_next;
    _List_node_base* p = _M_prev;
    p->_M_next = n;
    n->_M_prev = p;
}

} // namespace __detail

} // namespace std
