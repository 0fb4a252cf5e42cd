// Hash-consed bit-vector expression DAG with a rewriting constructor layer,
// an evaluator under models, and a translation to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>

enum class K : uint8_t { Const, Var, Undef, Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr,
    And, Or, Xor, Eq, Ult, Ule, Slt, Sle, Ite, Zext, Sext, Extract, Concat };

struct Node {
    K op; uint8_t w; bool taint; uint8_t leaves; // leaves: number of constant leaves when this is an ite tree over constants, else 0
    Node *a, *b, *c; uint64_t k; uint32_t id;    // k: const value, var id, or extract low bit
    uint32_t epoch; uint64_t val; Z3_ast z; uint64_t vars; // vars: which variables occur (bit 63: any with a high number)
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

struct Model { uint32_t epoch; std::vector<uint64_t> v; uint64_t get(uint64_t id) const { return id < v.size() ? v[id] : 0; } };

struct Exprs {
    std::deque<Node> pool;
    struct Key { K op; uint8_t w; Node *a, *b, *c; uint64_t k;
        bool operator==(const Key& o) const { return op == o.op && w == o.w && a == o.a && b == o.b && c == o.c && k == o.k; } };
    struct H { size_t operator()(const Key& x) const {
        uint64_t h = (uint64_t)x.op * 0x9E3779B97F4A7C15ull + x.w;
        auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
        mix((uint64_t)x.a); mix((uint64_t)x.b); mix((uint64_t)x.c); mix(x.k); return h; } };
    std::unordered_map<Key, Node*, H> tab;
    uint32_t nextEpoch = 1;

    Node* raw(K op, unsigned w, Node* a, Node* b, Node* c, uint64_t k) {
        Key key{op, (uint8_t)w, a, b, c, k};
        auto it = tab.find(key);
        if (it != tab.end()) return it->second;
        Node n{}; n.op = op; n.w = w; n.a = a; n.b = b; n.c = c; n.k = k; n.id = pool.size();
        n.taint = op == K::Undef || (a && a->taint) || (b && b->taint) || (c && c->taint);
        n.vars = (a ? a->vars : 0) | (b ? b->vars : 0) | (c ? c->vars : 0); if (op == K::Var) n.vars = 1ull << (k < 63 ? k : 63); if (op == K::Undef) n.vars = 1ull << 63;
        n.leaves = 0;
        if (op == K::Const) n.leaves = 1;
        else if (op == K::Ite && b->leaves && c->leaves && b->leaves + c->leaves <= 48) n.leaves = b->leaves + c->leaves;
        pool.push_back(n);
        Node* r = &pool.back(); tab.emplace(key, r); return r;
    }
    Node* cst(uint64_t v, unsigned w) { return raw(K::Const, w, nullptr, nullptr, nullptr, v & maskw(w)); }
    Node* var(uint64_t id, unsigned w) { return raw(K::Var, w, nullptr, nullptr, nullptr, id); }
    uint64_t undefCnt = 0;
    Node* undef(unsigned w) { return raw(K::Undef, w, nullptr, nullptr, nullptr, ++undefCnt); }
    Node* T() { return cst(1, 1); }
    Node* F() { return cst(0, 1); }

    static uint64_t fold(K op, unsigned w, uint64_t a, uint64_t b) {
        uint64_t m = maskw(w);
        switch (op) {
        case K::Add: return (a + b) & m; case K::Sub: return (a - b) & m; case K::Mul: return (a * b) & m;
        case K::UDiv: return b ? a / b : m; case K::URem: return b ? a % b : a;
        case K::SDiv: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return (x < 0 ? 1 : m) & m; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
        case K::SRem: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
        case K::Shl: return b >= w ? 0 : (a << b) & m; case K::LShr: return b >= w ? 0 : a >> b;
        case K::AShr: return (uint64_t)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
        case K::And: return a & b; case K::Or: return a | b; case K::Xor: return a ^ b;
        case K::Eq: return a == b; case K::Ult: return a < b; case K::Ule: return a <= b;
        case K::Slt: return sx(a, w) < sx(b, w); case K::Sle: return sx(a, w) <= sx(b, w);
        default: abort();
        }
    }
    static bool isC(Node* n) { return n->op == K::Const; }
    static bool isC(Node* n, uint64_t v) { return n->op == K::Const && n->k == v; }
    static bool cmp(K op) { return op == K::Eq || op == K::Ult || op == K::Ule || op == K::Slt || op == K::Sle; }

    Node* lnot(Node* a) {
        if (isC(a)) return cst(!a->k, 1);
        if (a->op == K::Xor && isC(a->b, 1)) return a->a;
        return raw(K::Xor, 1, a, T(), nullptr, 0);
    }
    Node* land(Node* a, Node* b) { return bin(K::And, a, b); }
    Node* lor(Node* a, Node* b) { return bin(K::Or, a, b); }

    // linear normal form of sums and differences (modulo 2^w): like terms cancel and the order of summation does not matter
    struct Lin { Node* a[40]; uint64_t c[40]; int n = 0; uint64_t k = 0; int dup = 0; };
    static bool isNot(Node* x) { return x->op == K::Xor && x->w > 1 && isC(x->b, maskw(x->w)); }
    bool linAdd(Lin& l, Node* x, uint64_t c) {
        for (;;) {
            if (isC(x)) { l.k += c * x->k; return true; }
            if (x->op == K::Add) { if (!linAdd(l, x->b, c)) return false; x = x->a; continue; }
            if (x->op == K::Sub) { if (!linAdd(l, x->b, 0 - c)) return false; x = x->a; continue; }
            if (isNot(x)) { l.k -= c; c = 0 - c; x = x->a; continue; }
            if (x->op == K::Mul && isC(x->b)) { c *= x->b->k; x = x->a; continue; }
            break;
        }
        int i = 0; while (i < l.n && l.a[i]->id < x->id) ++i;
        if (i < l.n && l.a[i] == x) { l.c[i] += c; ++l.dup; return true; }
        if (l.n == 40) return false;
        for (int j = l.n; j > i; --j) { l.a[j] = l.a[j - 1]; l.c[j] = l.c[j - 1]; }
        l.a[i] = x; l.c[i] = c; ++l.n; return true;
    }
    Node* linTerm(Node* x, uint64_t c, unsigned w) { return c == 1 ? x : raw(K::Mul, w, x, cst(c, w), nullptr, 0); }
    // sum of the terms with positive (sign 1) or negative (sign -1, negated) coefficients
    Node* linPart(Lin const& l, unsigned w, bool neg) {
        Node* r = nullptr; uint64_t m = maskw(w);
        for (int i = 0; i < l.n; ++i) { uint64_t c = l.c[i] & m; if (!c || (sx(c, w) < 0) != neg) continue; Node* t = linTerm(l.a[i], neg ? (0 - c) & m : c, w); r = r ? raw(K::Add, w, r, t, nullptr, 0) : t; }
        return r;
    }
    Node* linMake(Lin const& l, unsigned w) {
        Node* p = linPart(l, w, false); Node* q = linPart(l, w, true); uint64_t k = l.k & maskw(w);
        if (!q) { if (!p) return cst(k, w); return k ? raw(K::Add, w, p, cst(k, w), nullptr, 0) : p; }
        if (!p) return raw(K::Sub, w, cst(k, w), q, nullptr, 0);
        p = raw(K::Sub, w, p, q, nullptr, 0); return k ? raw(K::Add, w, p, cst(k, w), nullptr, 0) : p;
    }
    static bool linOp(Node* x) { return x->op == K::Add || x->op == K::Sub || isNot(x); }

    Node* bin(K op, Node* a, Node* b) {
        unsigned w = a->w, rw = cmp(op) ? 1 : w;
        if (isC(a) && isC(b)) return cst(fold(op, w, a->k, b->k), rw);
        bool comm = op == K::Add || op == K::Mul || op == K::And || op == K::Or || op == K::Xor || op == K::Eq;
        if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
        uint64_t m = maskw(w);
        switch (op) {
        case K::Add:
            if (isC(b, 0)) return a;
            if (isC(b) && a->op == K::Add && isC(a->b)) return bin(K::Add, a->a, cst(a->b->k + b->k, w));
            if (a->op == K::Sub && a->b == b) return a->a;
            if (b->op == K::Sub && b->b == a) return b->a;
            break;
        case K::Sub:
            if (isC(b, 0)) return a;
            if (a == b) return cst(0, w);
            if (isC(b)) return bin(K::Add, a, cst(0 - b->k, w));
            if (a->op == K::Add) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
            break;
        case K::Mul: if (isC(b, 0)) return b; if (isC(b, 1)) return a; break;
        case K::And:
            if (isC(b, 0)) return b; if (isC(b, m)) return a; if (a == b) return a;
            if (w == 1 && ((a->op == K::Xor && isC(a->b, 1) && a->a == b) || (b->op == K::Xor && isC(b->b, 1) && b->a == a))) return cst(0, 1);
            if (isC(b) && (b->k & (b->k + 1)) == 0) { unsigned n = 64 - __builtin_clzll(b->k); if (a->op == K::Zext && a->a->w <= n) return a; return zext(extract(a, n - 1, 0), w); }
            break;
        case K::Or:
            if (isC(b, 0)) return a; if (isC(b, m)) return b; if (a == b) return a;
            if (w == 1 && ((a->op == K::Xor && isC(a->b, 1) && a->a == b) || (b->op == K::Xor && isC(b->b, 1) && b->a == a))) return cst(1, 1);
            // or of disjoint pieces as built by byte packing: zext(x) | shl(zext(y), wx)
            if (b->op == K::Concat && isC(b->b, 0) && a->op == K::Zext && a->a->w <= b->b->w)
                return concat(b->a, zext(a->a, b->b->w));
            if (a->op == K::Concat && isC(a->b, 0) && b->op == K::Zext && b->a->w <= a->b->w)
                return concat(a->a, zext(b->a, a->b->w));
            break;
        case K::Xor: if (isC(b, 0)) return a; if (a == b) return cst(0, w);
            if (isC(b) && a->op == K::Xor && isC(a->b)) return bin(K::Xor, a->a, cst(a->b->k ^ b->k, w)); break;
        case K::Shl: if (isC(b, 0)) return a; if (isC(b)) { if (b->k >= w) return cst(0, w); return concat(extract(a, w - 1 - b->k, 0), cst(0, b->k)); } break;
        case K::LShr: if (isC(b, 0)) return a; if (isC(b)) { if (b->k >= w) return cst(0, w); return zext(extract(a, w - 1, b->k), w); } break;
        case K::AShr: if (isC(b, 0)) return a; if (isC(b)) { unsigned s = b->k >= w ? w - 1 : b->k; return sext(extract(a, w - 1, s), w); } break;
        case K::UDiv: if (isC(b, 1)) return a; if (isC(b) && b->k && !(b->k & (b->k - 1))) return bin(K::LShr, a, cst(__builtin_ctzll(b->k), w)); break;
        case K::URem: if (isC(b) && b->k && !(b->k & (b->k - 1))) return bin(K::And, a, cst(b->k - 1, w)); break;
        case K::Eq:
            if (a == b) return T();
            if (w == 1) { if (isC(b, 1)) return a; if (isC(b, 0)) return lnot(a); }
            if (isC(b)) {
                if (a->op == K::Zext) { if (b->k > maskw(a->a->w)) return F(); return bin(K::Eq, a->a, cst(b->k, a->a->w)); }
                if (a->op == K::Add && isC(a->b)) return bin(K::Eq, a->a, cst(b->k - a->b->k, w));
                if (a->op == K::Concat) return land(bin(K::Eq, a->a, cst(b->k >> a->b->w, a->a->w)), bin(K::Eq, a->b, cst(b->k, a->b->w)));
            } else if (a->op == K::Zext && b->op == K::Zext && a->a->w == b->a->w) return bin(K::Eq, a->a, b->a);
            else if (a->op == K::Add && b->op == K::Add) {
                if (a->a == b->a) return bin(K::Eq, a->b, b->b); if (a->b == b->b) return bin(K::Eq, a->a, b->a);
                if (a->a == b->b) return bin(K::Eq, a->b, b->a); if (a->b == b->a) return bin(K::Eq, a->a, b->b);
            }
            break;
        case K::Ult: if (a == b) return F(); if (isC(b, 0)) return F(); if (isC(a, m)) return F();
            if (isC(b, 1)) return bin(K::Eq, a, cst(0, w));
            if (a->op == K::Zext && isC(b)) { if (b->k > maskw(a->a->w)) return T(); return bin(K::Ult, a->a, cst(b->k, a->a->w)); }
            if (b->op == K::Zext && isC(a)) { if (a->k > maskw(b->a->w)) return F(); return bin(K::Ult, cst(a->k, b->a->w), b->a); }
            if (a->op == K::Zext && b->op == K::Zext && a->a->w == b->a->w) return bin(K::Ult, a->a, b->a);
            break;
        case K::Ule: return lnot(bin(K::Ult, b, a));
        case K::Slt: if (a == b) return F(); break;
        case K::Sle: return lnot(bin(K::Slt, b, a));
        default: break;
        }
        if (op != K::And && op != K::Or && op != K::Xor ? true : w > 1) {
            // push operations with a constant into ite trees over constants
            if (isC(b) && a->leaves > 1) return ite(a->a, bin(op, a->b, b), bin(op, a->c, b));
            if (isC(a) && b->leaves > 1) return ite(b->a, bin(op, a, b->b), bin(op, a, b->c));
            if (a->leaves > 1 && b->leaves > 1 && a->a == b->a) return ite(a->a, bin(op, a->b, b->b), bin(op, a->c, b->c));
            if (a->leaves > 1 && b->leaves > 1 && a->leaves * b->leaves <= 32) return ite(a->a, bin(op, a->b, b), bin(op, a->c, b));
        }
        if ((op == K::Add || op == K::Sub) && w > 1) { Lin l; if (linAdd(l, a, 1) && linAdd(l, b, op == K::Add ? 1 : ~0ull)) return linMake(l, w); }
        if (op == K::Eq && w > 1 && !isC(b) && (linOp(a) || linOp(b))) {
            Lin l; if (linAdd(l, a, 1) && linAdd(l, b, ~0ull)) {
                int live = 0; for (int i = 0; i < l.n; ++i) live += (l.c[i] & m) != 0;
                if (!live) return cst((l.k & m) == 0, 1);
                if (l.dup) {
                    Node* p = linPart(l, w, false); Node* q = linPart(l, w, true); uint64_t k = l.k & m;
                    if (!p) return raw(K::Eq, 1, q, cst(k, w), nullptr, 0);
                    if (!q) return raw(K::Eq, 1, p, cst(0 - k, w), nullptr, 0);
                    if (k) p = raw(K::Add, w, p, cst(k, w), nullptr, 0);
                    if (p->id > q->id) std::swap(p, q);
                    return raw(K::Eq, 1, p, q, nullptr, 0);
                }
            }
        }
        return raw(op, rw, a, b, nullptr, 0);
    }
    Node* ite(Node* c, Node* t, Node* e) {
        if (isC(c)) return c->k ? t : e;
        if (t == e) return t;
        if (c->op == K::Xor && isC(c->b, 1)) return ite(c->a, e, t);
        if (t->w == 1) {
            if (isC(t, 1) && isC(e, 0)) return c;
            if (isC(t, 0) && isC(e, 1)) return lnot(c);
            if (isC(t, 1)) return lor(c, e);
            if (isC(t, 0)) return land(lnot(c), e);
            if (isC(e, 0)) return land(c, t);
            if (isC(e, 1)) return lor(lnot(c), t);
        }
        if (t->op == K::Ite && t->a == c) t = t->b;
        if (e->op == K::Ite && e->a == c) e = e->c;
        if (t == e) return t;
        return raw(K::Ite, t->w, c, t, e, 0);
    }
    Node* zext(Node* a, unsigned w) {
        if (a->w == w) return a;
        if (isC(a)) return cst(a->k, w);
        if (a->op == K::Zext) return zext(a->a, w);
        if (a->leaves > 1) return ite(a->a, zext(a->b, w), zext(a->c, w));
        return raw(K::Zext, w, a, nullptr, nullptr, 0);
    }
    Node* sext(Node* a, unsigned w) {
        if (a->w == w) return a;
        if (isC(a)) return cst((uint64_t)sx(a->k, a->w), w);
        if (a->op == K::Zext) return zext(a->a, w);
        if (a->leaves > 1) return ite(a->a, sext(a->b, w), sext(a->c, w));
        return raw(K::Sext, w, a, nullptr, nullptr, 0);
    }
    Node* extract(Node* a, unsigned hi, unsigned lo) {
        unsigned w = hi - lo + 1;
        if (w == a->w) return a;
        if (isC(a)) return cst(a->k >> lo, w);
        if (a->op == K::Extract) return extract(a->a, a->k + hi, a->k + lo);
        if (a->op == K::Zext) {
            if (lo >= a->a->w) return cst(0, w);
            if (hi < a->a->w) return extract(a->a, hi, lo);
            return zext(extract(a->a, a->a->w - 1, lo), w);
        }
        if (a->op == K::Sext && hi < a->a->w) return extract(a->a, hi, lo);
        if (a->op == K::Concat) {
            unsigned lw = a->b->w;
            if (lo >= lw) return extract(a->a, hi - lw, lo - lw);
            if (hi < lw) return extract(a->b, hi, lo);
            return concat(extract(a->a, hi - lw, 0), extract(a->b, lw - 1, lo));
        }
        if (a->leaves > 1) return ite(a->a, extract(a->b, hi, lo), extract(a->c, hi, lo));
        if (lo == 0 && (a->op == K::Add || a->op == K::Sub || a->op == K::And || a->op == K::Or || a->op == K::Xor))
            return bin(a->op, extract(a->a, hi, 0), extract(a->b, hi, 0));
        if (a->op == K::And || a->op == K::Or || a->op == K::Xor) return bin(a->op, extract(a->a, hi, lo), extract(a->b, hi, lo));
        if (a->op == K::Ite) return ite(a->a, extract(a->b, hi, lo), extract(a->c, hi, lo));
        return raw(K::Extract, w, a, nullptr, nullptr, lo);
    }
    Node* concat(Node* hi, Node* lo) {
        unsigned w = hi->w + lo->w;
        if (isC(hi) && isC(lo)) return cst((hi->k << lo->w) | lo->k, w);
        if (isC(hi, 0)) return zext(lo, w);
        if (hi->op == K::Extract && lo->op == K::Extract && hi->a == lo->a && hi->k == lo->k + lo->w) return extract(hi->a, hi->k + hi->w - 1, lo->k);
        if (hi->op == K::Extract && hi->k == lo->w && lo->op != K::Concat && lo == extract(hi->a, lo->w - 1, 0)) return extract(hi->a, hi->k + hi->w - 1, 0);
        if (lo->op == K::Concat && hi->op == K::Extract && lo->a->op == K::Extract && hi->a == lo->a->a && hi->k == lo->a->k + lo->a->w)
            return concat(extract(hi->a, hi->k + hi->w - 1, lo->a->k), lo->b);
        if (hi->op == K::Zext && lo->w + hi->a->w < w) return zext(concat(hi->a, lo), w);
        return raw(K::Concat, w, hi, lo, nullptr, 0);
    }

    uint64_t eval(Node* n, const Model& m) {
        if (n->op == K::Const) return n->k;
        if (n->op == K::Var) return m.get(n->k) & maskw(n->w);
        if (n->op == K::Undef) return 0;
        if (n->epoch == m.epoch) return n->val;
        uint64_t r;
        switch (n->op) {
        case K::Ite: r = eval(n->a, m) ? eval(n->b, m) : eval(n->c, m); break;
        case K::Zext: r = eval(n->a, m); break;
        case K::Sext: r = (uint64_t)sx(eval(n->a, m), n->a->w) & maskw(n->w); break;
        case K::Extract: r = (eval(n->a, m) >> n->k) & maskw(n->w); break;
        case K::Concat: r = (eval(n->a, m) << n->b->w) | eval(n->b, m); break;
        default: r = fold(n->op, n->a->w, eval(n->a, m), eval(n->b, m));
        }
        n->epoch = m.epoch; n->val = r; return r;
    }
    std::string str(Node* n, int depth = 6) {
        static const char* nm[] = {"c","v","undef","+","-","*","/u","/s","%u","%s","<<",">>","a>>","&","|","^","=","<u","<=u","<s","<=s","ite","zext","sext","extract","concat"};
        if (n->op == K::Const) return std::to_string(n->k);
        if (n->op == K::Var) return "v" + std::to_string(n->k);
        if (n->op == K::Undef) return "undef";
        if (!depth) return "..";
        std::string r = std::string("(") + nm[(int)n->op];
        for (Node* x : {n->a, n->b, n->c}) if (x) r += " " + str(x, depth - 1);
        return r + ")";
    }
};
