// Random Content MathML trees for the drivers.
#ifndef VP_CMML_HPP
#define VP_CMML_HPP
#include <memory>
#include "mws/types/CmmlToken.hpp"
#include "drv.hpp"
struct N {   // plain description of a tree, kept beside the real one
    std::string tag, text;
    std::vector<std::pair<std::string, std::string>> attrs;
    std::vector<N> kids;
    bool var() const { return tag == "mws:qvar"; }
    bool range() const { return tag == "mws:range"; }
    std::string name() const {
        for (auto& a : attrs) if (a.first == "name") return a.second;
        return text;
    }
    std::string meaning() const { return tag == "mtext" ? "mtext#" : tag + "#" + text; }
    size_t size() const { size_t s = 1; for (auto& k : kids) s += k.size(); return s; }
    bool operator==(const N& o) const { return tag == o.tag && text == o.text && attrs == o.attrs && kids == o.kids; }
};
inline void fill(const N& n, mws::types::CmmlToken* t) {
    t->setTag(n.tag);
    for (auto& a : n.attrs) t->addAttribute(a.first, a.second);
    t->appendTextContent(n.text);
    for (auto& k : n.kids) fill(k, t->newChildNode());
}
inline std::unique_ptr<mws::types::CmmlToken> make(const N& n) {
    std::unique_ptr<mws::types::CmmlToken> t(mws::types::CmmlToken::newRoot());
    fill(n, t.get());
    return t;
}
inline std::string show(const N& n) {
    std::string s = "<" + n.tag;
    for (auto& a : n.attrs) s += " " + a.first + "=\"" + a.second + "\"";
    s += ">" + n.text;
    if (n.kids.size() > 40) return s + drv::fmt("(%zu children)", n.kids.size()) + "</>";
    for (auto& k : n.kids) { s += show(k); if (s.size() > 1500) return s + "..."; }
    return s + "</>";
}
struct Gen {
    drv::Rng& r;
    int names = 4, texts = 6, pvar = 10, panon = 5, prange = 5, pqkids = 0, maxar = 4;
    N leaf() {
        static const char* T[] = {"ci", "cn", "csymbol", "plus", "mtext", "emptyset", "ci#", "c"};
        N n;
        n.tag = T[r.below(8)];
        int k = r.below(texts);
        if (n.tag != "plus" && n.tag != "emptyset") n.text = n.tag == "cn" ? std::to_string(k) : k < 26 ? std::string(1, 'a' + k) : "x" + std::to_string(k);
        if (n.tag == "c" && r.coin(50)) n.text = "i#" + n.text;
        return n;
    }
    N tree(int depth) {
        int p = r.below(100);
        N n;
        if (p < pvar || (p -= pvar, p < panon)) {
            n.tag = "mws:qvar";
            bool named = r.below(pvar + panon) < (uint32_t)pvar;
            if (named) {
                std::string nm = "v" + std::to_string(r.below(names));
                if (r.coin(50)) n.attrs.push_back({"name", nm});
                else n.text = nm;
                if (r.coin(10) && !n.attrs.empty()) n.text = "other";
            } else if (r.coin(30)) { n.attrs.push_back({"name", ""}); n.text = r.coin(50) ? "ignored" : ""; }
            if (r.coin(pqkids)) for (int i = 1 + r.below(2); i--;) n.kids.push_back(leaf());
            return n;
        }
        p -= panon;
        if (p >= 0 && p < prange) {
            n.tag = "mws:range";
            if (r.coin(70)) n.attrs.push_back({"low", std::to_string(r.below(50))});
            if (r.coin(70)) n.attrs.push_back({"high", std::to_string(50 + r.below(50))});
            if (r.coin(pqkids)) n.kids.push_back(leaf());
            return n;
        }
        if (depth <= 0) return leaf();
        static const char* T[] = {"apply", "apply", "apply", "interval", "bind", "ci", "plus", "mtext"};
        n.tag = T[r.below(8)];
        if (n.tag == "ci") n.text = r.coin(50) ? "x" : "longname";
        int ar = r.below(maxar + 1);
        for (int i = 0; i < ar; i++) n.kids.push_back(tree(depth - 1));
        return n;
    }
};
#endif
