// Edits of a message's structure, keeping the lengths consistent
#pragma once
#include "val.hpp"
#include <algorithm>

struct Node
{
    TagN              tag{0, 0};
    bool              constructed = false;
    Bytes             content; // when primitive, or when the content is no sequence of packets
    std::vector<Node> kids;
    bool              raw = false;
};
inline bool tree_parse(const uint8_t* p, size_t n, std::vector<Node>& out, int depth = 0)
{
    while (n)
    {
        Tlv t = parse_tlv(p, n);
        if (!t.ok || depth > 60) return false;
        Node x;
        x.tag = TagN{t.cls, t.num};
        x.constructed = t.constructed;
        if (!t.constructed || !tree_parse(p + t.hl, t.cl, x.kids, depth + 1)) { x.kids.clear(); x.raw = true; x.content.assign(p + t.hl, p + t.hl + t.cl); }
        out.push_back(std::move(x));
        p += t.hl + t.cl; n -= t.hl + t.cl;
    }
    return true;
}
inline void tree_write(const std::vector<Node>& v, Bytes& out)
{
    for (auto& x : v)
    {
        Bytes c;
        if (x.raw) c = x.content;
        else tree_write(x.kids, c);
        put_tlv(out, x.tag, x.constructed, c);
    }
}
inline void tree_all(std::vector<Node>& v, std::vector<std::pair<std::vector<Node>*, size_t>>& out)
{
    for (size_t i = 0; i < v.size(); i++) { out.push_back({&v, i}); if (!v[i].raw) tree_all(v[i].kids, out); }
}
enum TreeOp { T_REMOVE, T_DUPLICATE, T_SWAP, T_TAG, T_CONSTR, T_CONTENT, T_INSERT, T_LAST, T_CHOP, T_CLONE, T_EMPTY, T_WRAP, T_OPS };
inline const char* tree_op_name(int op)
{
    static const char* n[] = {"remove", "duplicate", "swap", "retag", "construction", "content", "insert", "move_last", "chop", "clone", "empty", "wrap"};
    return n[op % T_OPS];
}
inline Bytes tree_edit(const Bytes& in, uint64_t k, int op, uint64_t seed)
{
    std::vector<Node> roots;
    if (!tree_parse(in.data(), in.size(), roots)) return in;
    std::vector<std::pair<std::vector<Node>*, size_t>> all;
    tree_all(roots, all);
    if (all.empty()) return in;
    auto&  at = all[k % all.size()];
    auto&  v  = *at.first;
    size_t i  = at.second;
    Rng    r(seed);
    switch (op % T_OPS)
    {
    case T_REMOVE: v.erase(v.begin() + (long)i); break;
    case T_DUPLICATE:
    {
        Node   c = v[i];
        size_t copies = r.chance(1, 3) ? 1 : r.chance(1, 20) ? 255 + r.below(3) : 1 + r.below(4);
        if (copies > 10 && !c.raw && !c.kids.empty()) copies = 2;
        if (copies > 10 && c.raw && c.content.size() > 40) copies = 3;
        for (; copies; copies--) v.insert(v.begin() + (long)(r.chance(1, 2) ? i : r.below(v.size() + 1)), c);
        break;
    }
    case T_SWAP: if (i + 1 < v.size()) std::swap(v[i], v[i + 1]); break;
    case T_TAG:
        switch (r.below(4))
        {
        case 0: v[i].tag.cls = (int)r.below(4); break;
        case 1: v[i].tag.num = (int64_t)r.below(12); break;
        case 2: v[i].tag.num = v[i].tag.num ^ (1 << r.below(20)); break;
        default: v[i].tag.num = (v[i].tag.num + (r.chance(1, 2) ? 1 : 127)) % 40000; break;
        }
        break;
    case T_CONSTR:
        if (!v[i].raw) { Bytes c; tree_write(v[i].kids, c); v[i].content = c; v[i].raw = true; }
        v[i].constructed = !v[i].constructed;
        break;
    case T_CONTENT:
    {
        v[i].raw = true; v[i].kids.clear(); v[i].content.clear();
        for (size_t n = r.chance(1, 6) ? r.below(200) : r.below(12); n--;) v[i].content.push_back((uint8_t)(r.chance(1, 3) ? 0 : r.below(256)));
        break;
    }
    case T_INSERT:
    {
        Node x;
        x.tag = TagN{(int)r.below(4), (int64_t)(r.chance(1, 3) ? r.below(200) : r.below(10))};
        x.raw = true; x.constructed = false;
        for (size_t n = r.below(6); n--;) x.content.push_back((uint8_t)r.below(256));
        v.insert(v.begin() + (long)i, x);
        break;
    }
    case T_LAST: { Node c = v[i]; v.erase(v.begin() + (long)i); v.push_back(c); break; }
    case T_CHOP:
        if (!v[i].raw) { Bytes c; tree_write(v[i].kids, c); v[i].content = c; v[i].raw = true; }
        if (!v[i].content.empty()) v[i].content.resize(v[i].content.size() - 1 - r.below(std::min<size_t>(3, v[i].content.size())));
        break;
    case T_CLONE: { Node c = *(all[r.below(all.size())].first->begin()); v[i] = c; break; }
    case T_EMPTY: v[i].kids.clear(); v[i].content.clear(); break;
    case T_WRAP: { Node w; w.tag = TagN{2, (int64_t)r.below(8)}; w.constructed = true; w.kids.push_back(v[i]); v[i] = w; break; }
    }
    Bytes out;
    tree_write(roots, out);
    return out;
}
