// Tree: every editing history vs an ideal ordered tree (C04), and every traversal /
// lookup / query on every small tree (C05).
#include "elem.h"
#include <memory>
#include <vector>
#include <geomc/Tree.h>
using namespace geom;

#ifndef MAXN
#define MAXN 4
#endif
#ifndef MAXI
#define MAXI 3
#endif

typedef Tree<int, Elem> TreeT;
typedef Subtree<int, Elem> Sub;
typedef Sub::item_iterator Item;

struct MNode {
    int val;
    MNode* parent = nullptr;
    std::vector<std::unique_ptr<MNode>> ch;
    std::vector<int> items;        // leaf only
    std::optional<Sub> h;
    void leaf_items(std::vector<int>& out) const { if (ch.empty()) out.insert(out.end(), items.begin(), items.end()); for (auto& c : ch) c->leaf_items(out); }
    std::vector<int> all_items() const { std::vector<int> v; leaf_items(v); return v; }
    void pre(std::vector<MNode*>& out) { out.push_back(this); for (auto& c : ch) c->pre(out); }
    // "sibling-contiguous" order of all strict descendants
    void contiguous(std::vector<MNode*>& out) const { for (auto& c : ch) out.push_back(c.get()); for (auto& c : ch) c->contiguous(out); }
    std::string str() const { std::string s = "("; for (int i : items) s += (i % 2 ? 'o' : 'e'); for (auto& c : ch) s += c->str(); return s + ")"; }
};

struct Sys {
    std::unique_ptr<TreeT> t;
    std::unique_ptr<MNode> root;
    std::map<int, Item> items;     // item id -> iterator handle
    int next = 1, nextv = 100;
    uint64_t f0 = mc::G().nfails;
    bool bad() const { return mc::G().nfails != f0; }

    Sys() {
        reg().reset();
        t = std::make_unique<TreeT>();
        root = std::make_unique<MNode>();
        root->val = 0;
        *t->root() = 0;
        root->h = t->root();
    }
    std::vector<MNode*> nodes() { std::vector<MNode*> v; root->pre(v); return v; }

    enum Kind { INS, INS2, ITEM, ITEM2, XITEM, CLEAR, XCHILD, FLAT, SPLIT, BADITEM, BADCHILD, BADERASE, COPY, MOVE, RANGE };
    struct Op { Kind k; int a, b; };
    static const std::vector<Op>& ops() {
        static std::vector<Op> v;
        if (v.empty()) {
            for (int a = 0; a < MAXN; ++a) for (int b = 0; b < MAXN; ++b) v.push_back({INS, a, b});
            for (int a = 0; a < MAXN; ++a) for (int b = 0; b <= MAXI; ++b) v.push_back({ITEM, a, b});
            for (int a = 0; a < MAXN; ++a) for (int b = 0; b < MAXI; ++b) v.push_back({XITEM, a, b});
            for (int a = 0; a < MAXN; ++a) for (int b = 0; b < MAXN; ++b) v.push_back({XCHILD, a, b});
            for (int a = 0; a < MAXN; ++a) { v.push_back({CLEAR, a, 0}); v.push_back({FLAT, a, 0}); v.push_back({SPLIT, a, 0}); v.push_back({SPLIT, a, 1}); }
            for (int a = 0; a < MAXN; ++a) for (int b = 0; b < 3; ++b) { v.push_back({INS2, a, b}); v.push_back({ITEM2, a, b}); }
            for (int a = 0; a < MAXN; ++a) { v.push_back({BADITEM, a, 0}); for (int b = 0; b < MAXN; ++b) { v.push_back({BADCHILD, a, b}); v.push_back({BADERASE, a, b}); } }
            v.push_back({COPY, 0, 0}); v.push_back({MOVE, 0, 0}); v.push_back({RANGE, 0, 0}); v.push_back({RANGE, 2, 0});
        }
        return v;
    }
    static int n_ops() { return ops().size(); }
    static std::string op_name(int o) {
        static const char* n[] = {"insert_child", "insert_children2", "insert_item", "insert_items2", "erase_item", "clear", "erase_child", "flatten", "split", "insert_item_into_internal", "insert_before_non_child", "erase_non_child", "copy", "move", "construct_from_items"};
        auto& x = ops()[o];
        return mc::str(n[x.k], "(", x.a, ",", x.b, ")");
    }
    bool enabled(int o) {
        auto& x = ops()[o];
        auto ns = nodes();
        int N = ns.size(), I = items.size();
        if (x.k == COPY or x.k == MOVE) return true;
        if (x.k == RANGE) return x.a <= MAXI;
        if (x.a >= N) return false;
        MNode* n = ns[x.a];
        switch (x.k) {
            case INS: return N < MAXN and x.b <= (int)n->ch.size();
            case INS2: return N + 2 <= MAXN and x.b <= (int)n->ch.size();
            case ITEM: return I < MAXI and n->ch.empty() and x.b <= (int)n->items.size();
            case ITEM2: return I + 2 <= MAXI and n->ch.empty() and x.b <= (int)n->items.size();
            case XITEM: return n->ch.empty() and x.b < (int)n->items.size();
            case XCHILD: return x.b < (int)n->ch.size();
            case SPLIT: return N < MAXN;
            case BADITEM: return !n->ch.empty();
            case BADCHILD: case BADERASE: return x.b < N and ns[x.b]->parent != n;
            default: return true;
        }
    }
    Sub child_at(MNode* n, int k) { Sub it = n->h->begin(); for (int i = 0; i < k; ++i) ++it; return it; }
    Item item_at(MNode* n, int k) { Item it = n->h->items_begin(); if (k < (int)n->items.size()) { for (int i = 0; i < k; ++i) ++it; return it; } return n->h->items_end(); }
    MNode* add_child(MNode* n, int k, int val, const Sub& h) {
        auto c = std::make_unique<MNode>();
        c->val = val; c->parent = n; c->h = h;
        if (n->ch.empty()) { c->items = std::move(n->items); n->items.clear(); }
        MNode* r = c.get();
        n->ch.insert(n->ch.begin() + k, std::move(c));
        return r;
    }
    void bind(MNode* n, const Sub& s) {      // rebuild handles after copy/move
        n->h = s;
        Sub it = s.begin();
        for (auto& c : n->ch) { bind(c.get(), it); ++it; }
        if (n->ch.empty()) { Item i = s.items_begin(); for (int id : n->items) { items.insert_or_assign(id, i); ++i; } }
    }
    void apply(int o) {
        auto& x = ops()[o];
        auto ns = nodes();
        MNode* n = x.k < COPY ? ns[x.a] : root.get();
        switch (x.k) {
            case INS: {
                Sub before = child_at(n, x.b);
                Sub r = (x.b == (int)n->ch.size() and nextv % 2) ? n->h->insert_child_node(nextv) : n->h->insert_child_node(before, nextv);
                MNode* c = add_child(n, x.b, nextv, r);
                MC_CHECK(*r == nextv, "insert-return", "insert_child_node returned a node with value ", *r);
                (void)c; nextv++; break; }
            case INS2: {
                std::vector<int> v = {nextv, nextv + 1}; nextv += 2;
                Sub before = child_at(n, x.b);
                Sub r = (x.b == (int)n->ch.size() and nextv % 4 < 2) ? n->h->insert_child_nodes(v.begin(), v.end()) : n->h->insert_child_nodes(before, v.begin(), v.end());
                MC_CHECK(*r == v[0], "insert-nodes-return", "returned node value ", *r);
                MNode* c1 = add_child(n, x.b, v[0], r); Sub r2 = r; ++r2;
                add_child(n, x.b + 1, v[1], r2); (void)c1; break; }
            case ITEM: {
                Item r; int id = next++;
                if (x.b == (int)n->items.size() and id % 2) { Elem e(id); r = n->h->insert_item(e); } else r = n->h->insert_item(item_at(n, x.b), id);
                MC_CHECK(id_of(*r) == id, "insert-item-return", "returned item ", id_of(*r));
                n->items.insert(n->items.begin() + x.b, id); items[id] = r; break; }
            case ITEM2: {
                std::vector<Elem> v; v.reserve(2); int i0 = next; next += 2;
                v.emplace_back(i0); v.emplace_back(i0 + 1);
                index_t ct = -5;
                bool atend = x.b == (int)n->items.size() and i0 % 4 < 2;
                Item r = atend ? n->h->insert_items(v.begin(), v.end()) : n->h->insert_items(item_at(n, x.b), v.begin(), v.end(), &ct);
                MC_CHECK(id_of(*r) == i0 and (atend or ct == 2), "insert-items-return", "returned item ", id_of(*r), " count ", ct);
                n->items.insert(n->items.begin() + x.b, {i0, i0 + 1}); items[i0] = r; Item r2 = r; ++r2; items[i0 + 1] = r2; break; }
            case XITEM: {
                int id = n->items[x.b]; bool ok = false;
                // an item of another node must be refused
                for (auto& p : items) if (std::find(n->items.begin(), n->items.end(), p.first) == n->items.end()) { bool ok2 = true; n->h->erase(p.second, &ok2); MC_CHECK(!ok2, "erase-foreign-item", "reported success"); break; }
                Item r = n->h->erase(items[id], &ok);
                MC_CHECK(ok, "erase-item-success", "reported failure");
                items.erase(id); n->items.erase(n->items.begin() + x.b);
                if (x.b < (int)n->items.size()) MC_CHECK(id_of(*r) == n->items[x.b], "erase-item-return", "returned the wrong successor");
                else MC_CHECK(n->items.empty() or r == n->h->items_end(), "erase-item-return-end", "expected items_end()");
                break; }
            case CLEAR: { for (int id : n->all_items()) items.erase(id); n->h->clear(); n->ch.clear(); n->items.clear(); break; }
            case FLAT: { auto all = n->all_items(); n->h->flatten(); n->ch.clear(); n->items = all; break; }
            case XCHILD: {
                MNode* c = n->ch[x.b].get(); for (int id : c->all_items()) items.erase(id);
                bool ok = false; Sub r = n->h->erase(*c->h, &ok);
                n->ch.erase(n->ch.begin() + x.b);
                MC_CHECK(ok, "erase-child-success", "reported failure");
                if (x.b < (int)n->ch.size()) MC_CHECK(r == *n->ch[x.b]->h, "erase-child-return", "wrong successor");
                else MC_CHECK(r == n->h->end(), "erase-child-return-end", "expected end()");
                break; }
            case SPLIT: {
                bool can = n->parent and n->ch.empty() and n->items.size() >= 2;
                int want = x.b;
                Sub r = n->h->split([](const Elem& e, int par) { return (e.id() % 2 == par) ? -1 : 1; }, want, nextv);
                if (!can) { MC_CHECK(r == n->h->end(), "split-refused", "expected end()"); break; }
                MNode* p = n->parent; int k = 0; while (p->ch[k].get() != n) ++k;
                std::multiset<int> lo, hi, glo, ghi;
                for (int id : n->items) (id % 2 == want ? lo : hi).insert(id);
                std::vector<int> vlo, vhi;
                auto c = std::make_unique<MNode>(); c->val = nextv++; c->parent = p; c->h = r;
                for (Item i = r.items_begin(); i != r.items_end() and vlo.size() < 20; ++i) { glo.insert(id_of(*i)); vlo.push_back(id_of(*i)); items[id_of(*i)] = i; }
                for (Item i = n->h->items_begin(); i != n->h->items_end() and vhi.size() < 20; ++i) { ghi.insert(id_of(*i)); vhi.push_back(id_of(*i)); items[id_of(*i)] = i; }
                MC_CHECK(glo == lo and ghi == hi, "split-partition", "items were not partitioned by the comparison");
                n->items = vhi; c->items = vlo;
                p->ch.insert(p->ch.begin() + k, std::move(c));
                break; }
            case BADITEM: { Elem e(-1); Item r = n->h->insert_item(n->h->items_begin(), e); MC_CHECK(r == n->h->items_end(), "insert-into-internal", "expected items_end()"); break; }
            case BADCHILD: {
                // refuse to insert before a node which is not a child; an end() that coincides with the node is legal
                Sub b = *ns[x.b]->h;
                if (b == n->h->end() and !b.is_root()) break;
                Sub r = n->h->insert_child_node(b, 7777); MC_CHECK(r == n->h->end(), "insert-before-non-child", "expected end()"); break; }
            case BADERASE: { bool ok = true; n->h->erase(*ns[x.b]->h, &ok); MC_CHECK(!ok, "erase-non-child", "reported success"); break; }
            case COPY: {
                auto c = std::make_unique<TreeT>((const TreeT&)*t);
                MC_CHECK(*c == *t and !(*c != *t), "copy-equal", "copy differs from original");
                full_check("copy source", false);
                t.swap(c);
                c.reset();                       // the original dies: the copy must stand alone
                items.clear(); bind(root.get(), t->root()); break; }
            case MOVE: { auto c = std::make_unique<TreeT>(std::move(*t)); t.swap(c); c.reset(); items.clear(); bind(root.get(), t->root()); break; }
            case RANGE: {
                items.clear(); t.reset();
                std::vector<Elem> v; v.reserve(4); std::vector<int> ids;
                for (int i = 0; i < x.a; ++i) { ids.push_back(next); v.emplace_back(next++); }
                t = std::make_unique<TreeT>(v.begin(), v.end());
                root = std::make_unique<MNode>(); root->val = nextv; *t->root() = nextv++; root->items = ids; bind(root.get(), t->root()); break; }
        }
        if (mc::G().at_last) full_check(op_name(o));
    }
    void check_node(MNode* n, const std::string& op) {
        Sub s = *n->h;
        std::string w = mc::str("after ", op, " in ", root->str(), " at node ", n->val, ": ");
        MC_CHECK(*s == n->val, "node-value", w, "value ", *s);
        MC_CHECK(s.node_count() == (index_t)n->ch.size(), "node-count", w, "node_count ", s.node_count());
        auto all = n->all_items();
        MC_CHECK(s.item_count() == (index_t)all.size(), "item-count", w, "item_count ", s.item_count(), " model ", all.size());
        MC_CHECK(s.is_root() == (n == root.get()), "is-root", w);
        if (n->parent) { MC_CHECK(s.parent() == *n->parent->h, "parent", w); } else MC_CHECK(s.parent() == t->end(), "root-parent", w, "parent of the root is not the tree's end()");
        if (bad()) return;
        // children forward
        size_t k = 0; Sub e = s.end();
        Sub c = s.begin();
        for (; c != e and k <= n->ch.size(); ++c, ++k) if (k < n->ch.size()) MC_CHECK(c == *n->ch[k]->h, "child-order", w, "child ", k);
        MC_CHECK(k == n->ch.size() and c == e, "child-range", w, "begin..end visits ", k, " children");
        if (bad()) return;
        // children backward
        if (k) { for (size_t j = k; j-- > 0;) { --c; MC_CHECK(c == *n->ch[j]->h, "child-order-reverse", w, "child ", j); } }
        // items forward / backward
        size_t q = 0; Item ie = s.items_end(); Item i = s.items_begin();
        for (; i != ie and q <= all.size(); ++i, ++q) if (q < all.size()) MC_CHECK(id_of(*i) == all[q] and i == items.at(all[q]), "item-order", w, "item ", q, " is ", id_of(*i), " model ", all[q]);
        MC_CHECK(q == all.size() and i == ie, "item-range", w, "items_begin..items_end visits ", q, " items, model ", all.size());
        if (bad()) return;
        for (size_t j = q; j-- > 0;) { --i; MC_CHECK(id_of(*i) == all[j], "item-order-reverse", w, "item ", j); }
        // whole subtree in sibling-contiguous order
        std::vector<MNode*> cont; n->contiguous(cont);
        size_t z = 0; Sub se = s.subtree_end();
        if (!cont.empty()) {
            Sub it = s.begin();
            for (; it != se and z <= cont.size(); ++it, ++z) if (z < cont.size()) MC_CHECK(it == *cont[z]->h, "subtree-order", w, "position ", z);
            MC_CHECK(z == cont.size(), "subtree-range", w, "subtree has ", z, " nodes, model ", cont.size());
            MC_CHECK(s.subtree_begin() == s.begin(), "subtree-begin", w);
        } else MC_CHECK(s.subtree_begin() == s.subtree_end(), "subtree-empty-range", w);
        if (bad()) return;
        {   // the const view presents the same structure
            ConstSubtree<int, Elem> cs(s);
            MC_CHECK(*cs == n->val and cs.node_count() == s.node_count() and cs.item_count() == s.item_count() and t->subtree(cs) == s, "const-view", w);
            size_t kc = 0; for (auto c2 = cs.begin(); c2 != cs.end() and kc <= n->ch.size(); ++c2, ++kc) MC_CHECK(*c2 == n->ch[kc]->val, "const-children", w);
            size_t qc = 0; for (auto i2 = cs.items_begin(); i2 != cs.items_end() and qc <= all.size(); ++i2, ++qc) MC_CHECK(id_of(*i2) == all[qc], "const-items", w);
            MC_CHECK(kc == n->ch.size() and qc == all.size(), "const-ranges", w);
            if (n == root.get()) { const TreeT& ct = *t; MC_CHECK(ct.root() == cs and ct.begin() == cs and *ct.root() == n->val, "const-root", w);
                size_t zc = 0; for (auto c3 = ct.begin(); c3 != ct.end() and zc < 100; ++c3) ++zc; MC_CHECK(zc == t->size(), "const-range", w); }
        }
        MC_CHECK(s.global_begin() == t->begin() and s.global_end() == t->end() and &s.tree() == t.get(), "globals", w);
    }
    void full_check(const std::string& op, bool count = true) {
        auto ns = nodes();
        mc::step(ns.size());
        MC_CHECK(t->size() == ns.size(), "tree-size", "after ", op, ": size() ", t->size(), " model ", ns.size());
        auto all = root->all_items();
        MC_CHECK(t->item_count() == all.size(), "tree-item-count", "after ", op, ": item_count() ", t->item_count(), " model ", all.size());
        MC_CHECK(!count or reg().live.size() == all.size(), "lifetime-live-count", "after ", op, ": live items ", reg().live.size(), " model ", all.size());
        MC_CHECK(t->root() == *root->h and t->begin() == *root->h, "root", "after ", op);
        std::vector<MNode*> cont; cont.push_back(root.get()); root->contiguous(cont);
        size_t z = 0;
        for (Sub it = t->begin(); it != t->end() and z <= cont.size(); ++it, ++z) if (z < cont.size()) MC_CHECK(it == *cont[z]->h, "tree-order", "after ", op, " position ", z, " in ", root->str());
        MC_CHECK(z == cont.size(), "tree-range", "after ", op, ": ", z, " nodes");
        if (bad()) return;
        for (MNode* n : ns) { check_node(n, op); if (bad()) return; }
    }
    uint64_t key() { return mc::hash_str(root->str()) ^ (next % 4 * 7919) ^ (nextv % 2 * 104729); }
    void finish() {
        if (mc::G().at_last and mc::part("query")) queries();
        t.reset();
        MC_CHECK(reg().live.empty(), "lifetime-leak", reg().live.size(), " items never destroyed");
    }

    // ---- C05: all lookups and queries on the tree reached by this history ----
    static bool may_contain(const int& node, const Elem& e) { return cur and cur->bound(node, e.id()); }
    static Sys* cur;
    std::map<int, std::set<int>> contains_map;   // node value -> items below
    bool bound(int node, int item) { return contains_map[node].count(item); }
    void mquery(MNode* n, const std::function<bool(MNode*)>& b, const std::function<bool(MNode*)>& v, std::vector<MNode*>& out) {
        if (v(n)) out.push_back(n);
        if (n->ch.empty() or !b(n)) return;
        for (auto& c : n->ch) mquery(c.get(), b, v, out);
    }
    void queries() {
        static std::unordered_set<std::string> done; if (!done.insert(root->str()).second) return;   // once per structure
        auto ns = nodes();
        cur = this; contains_map.clear();
        for (MNode* n : ns) for (int id : n->all_items()) contains_map[n->val].insert(id);
        std::map<int, MNode*> owner;
        for (MNode* n : ns) if (n->ch.empty()) for (int id : n->items) owner[id] = n;
        for (MNode* n : ns) {
            auto mine = n->all_items();
            for (auto& p : items) {
                bool in = std::find(mine.begin(), mine.end(), p.first) != mine.end();
                Sub r = n->h->find_parent(p.second);
                Sub r2 = n->h->find_parent<may_contain>(p.second);
                mc::step(2);
                MC_CHECK(r == (in ? *owner[p.first]->h : n->h->end()), "find-parent", "in ", root->str(), " from node ", n->val, " item ", p.first);
                MC_CHECK(r2 == (in ? *owner[p.first]->h : n->h->end()), "find-parent-bounded", "in ", root->str(), " from node ", n->val, " item ", p.first);
            }
        }
        // every accept set x every prune set
        std::map<int, int> idx; for (size_t i = 0; i < ns.size(); ++i) idx[ns[i]->val] = i;
        uint32_t F = 1u << ns.size();
        for (MNode* n : ns) for (uint32_t acc = 0; acc < F; ++acc) for (uint32_t bnd = 0; bnd < F; ++bnd) {
            std::vector<MNode*> want; 
            mquery(n, [&](MNode* m) { return bnd >> idx[m->val] & 1; }, [&](MNode* m) { return acc >> idx[m->val] & 1; }, want);
            auto B = [&](const Sub& s, int k) { return k == 5 and (bnd >> idx[*s] & 1); };
            auto A = [&](const Sub& s, int k) { return k == 5 and (acc >> idx[*s] & 1); };
            auto it = n->h->query(5, B, A);
            size_t k = 0; bool bad = false;
            for (; it != n->h->end(); ++it) {
                if (k >= want.size() or !(*it == *want[k]->h)) { bad = true; break; }
                ++k;
            }
            mc::step();
            MC_CHECK(!bad and k == want.size(), "query", "in ", root->str(), " from node #", idx[n->val], " accept=", acc, " descend=", bnd, ": visited ", k, " correct results then ", bad ? "a wrong one" : "stopped", ", model has ", want.size());
        }
    }
};
Sys* Sys::cur = nullptr;

void mc_run() {
    static char g[64];
    std::snprintf(g, 64, "tree-bfs-%dnodes-%ditems", MAXN, MAXI);
    mc::bfs<Sys>(g, 40, 10000000);
}
