// Properties of the geometry, the packing kernels and the plan logic: no communication involved.
#include "common.h"
#include "heffte.h"
#include <set>
using pbt::Gen; using pbt::Case; using pbt::fail;
std::unique_ptr<Plan> make_plan(PlanSpec const &){ return nullptr; }

typedef __int128 wide;
typedef std::array<long long,3> L3;
struct LBox { L3 lo{{0,0,0}}, hi{{-1,-1,-1}}; std::array<int,3> order{{0,1,2}};
    long long size(int d) const{ return hi[d] - lo[d] + 1; } bool empty() const{ return size(0) <= 0 or size(1) <= 0 or size(2) <= 0; }
    wide count() const{ return empty() ? 0 : (wide) size(0) * size(1) * size(2); }
    std::string str() const{ std::ostringstream o; o << "[" << lo[0] << "," << lo[1] << "," << lo[2] << ":" << hi[0] << "," << hi[1] << "," << hi[2] << "|" << order[0] << order[1] << order[2] << "]"; return o.str(); }
};
static std::string str(L3 const &a){ std::ostringstream o; o << "(" << a[0] << "," << a[1] << "," << a[2] << ")"; return o.str(); }
static LBox meet(LBox const &a, LBox const &b){ LBox r; for(int d=0; d<3; d++){ r.lo[d] = std::max(a.lo[d], b.lo[d]); r.hi[d] = std::min(a.hi[d], b.hi[d]); } r.order = a.order; return r; }
template<typename index> heffte::box3d<index> H(LBox const &b){ return heffte::box3d<index>({(index) b.lo[0], (index) b.lo[1], (index) b.lo[2]}, {(index) b.hi[0], (index) b.hi[1], (index) b.hi[2]}, b.order); }
template<typename index> LBox L(heffte::box3d<index> const &b){ LBox r; for(int d=0; d<3; d++){ r.lo[d] = b.low[d]; r.hi[d] = b.high[d]; r.order[d] = b.order[d]; } return r; }
template<typename index> std::vector<LBox> LV(std::vector<heffte::box3d<index>> const &v){ std::vector<LBox> r; for(auto const &b : v) r.push_back(L(b)); return r; }
template<typename index> std::vector<heffte::box3d<index>> HV(std::vector<LBox> const &v){ std::vector<heffte::box3d<index>> r; for(auto const &b : v) r.push_back(H<index>(b)); return r; }
static std::string list(std::vector<LBox> const &v){ std::string s; for(auto const &b : v) s += b.str(); return s; }
static LBox lworld(L3 const &lo, L3 const &n){ LBox w; w.lo = lo; for(int d=0; d<3; d++) w.hi[d] = lo[d] + n[d] - 1; return w; }
static bool same(LBox const &a, LBox const &b){ if (a.empty() and b.empty()) return true; return a.lo == b.lo and a.hi == b.hi; }
//! Empty string when the boxes are a partition of the world.
static std::string not_partition(std::vector<LBox> const &v, LBox const &w){
    wide total = 0;
    for(size_t i=0; i<v.size(); i++){
        if (v[i].empty()) continue; total += v[i].count();
        for(int d=0; d<3; d++) if (v[i].lo[d] < w.lo[d] or v[i].hi[d] > w.hi[d]) return "box " + v[i].str() + " leaves the world " + w.str();
        for(size_t j=0; j<i; j++) if (not v[j].empty() and not meet(v[i], v[j]).empty()) return "boxes " + v[i].str() + " and " + v[j].str() + " overlap";
    }
    if (total != w.count()) return "the boxes " + list(v) + " do not fill the world " + w.str();
    return "";
}
static bool fits2(int p, long long a, long long b){ for(int i=1; i<=p; i++) if (p % i == 0 and i <= a and p / i <= b) return true; return false; }
static L3 gen_size(Gen &g, bool big){
    L3 n; int cls = g.below(4);
    for(int d=0; d<3; d++){
        if (not big) n[d] = cls == 0 ? g.range(1, 6) : (cls == 1 ? g.range(1, 40) : (cls == 2 ? g.pick({1, 2, 3, 4, 5, 7, 8, 12, 16, 30, 64}) : g.range(1, 300)));
        else n[d] = cls == 0 ? (long long) g.range(1, 50) << g.below(16) : (cls == 1 ? (long long) g.range(1, 2000000) : (cls == 2 ? (1ll << g.below(21)) : (long long) g.range(1000, 4000)));
    }
    return n;
}
static L3 gen_large(Gen &g){ L3 n; for(int d=0; d<3; d++) n[d] = g.chance(1, 2) ? g.range(500, 4500) : g.pick({512, 1024, 1290, 1291, 1625, 1626, 2048, 4096}); return n; }
static std::array<int,3> lorder(Gen &g){ I3 o = gen_order(g); return {{o[0], o[1], o[2]}}; }

// ---- C10 -----------------------------------------------------------------------------------------------------------
static void need(bool ok, std::string const &m){ if (not ok) fail(m); }
static long long imbalance(std::vector<LBox> const &v, int d){ long long a = -1, b = -1; for(auto const &x : v) if (not x.empty()){ if (a < 0 or x.size(d) < a) a = x.size(d); if (x.size(d) > b) b = x.size(d); } return b - a; }
static std::set<std::pair<long long,long long>> intervals(std::vector<LBox> const &v, int d){ std::set<std::pair<long long,long long>> s; for(auto const &b : v) if (not b.empty()) s.insert({b.lo[d], b.hi[d]}); return s; }

//! A partition of the world into p boxes, all non-empty (style as in gen_partition), in the wide type.
static std::vector<LBox> lpartition(Gen &g, L3 const &n, int p){
    // cut a small model grid and scale the cuts: model dimension m <= 24 maps to the real dimension
    I3 m; for(int d=0; d<3; d++) m[d] = (int) std::min<long long>(n[d], 24);
    std::string st; std::vector<Box> b = gen_partition(g, m, p, st);
    auto scale = [&](int x, int d)->long long{ return (long long) ((wide) x * n[d] / m[d]); };
    std::vector<LBox> r; for(auto const &x : b){ LBox y; for(int d=0; d<3; d++){ y.lo[d] = scale(x.lo[d], d); y.hi[d] = scale(x.hi[d] + 1, d) - 1; y.order[d] = x.order[d]; } r.push_back(y); }
    return r;
}
template<typename index> void geometry(Gen &g, Case &c, bool big){
    using namespace heffte;
    L3 n = gen_size(g, big); L3 lo{{0,0,0}};
    // large worlds of 32-bit boxes: every extent fits but the number of indexes does not
    bool large = not big and g.chance(1, 4); if (large){ n = gen_large(g); c.label("large"); }
    bool zero = g.chance(1, 2); if (zero) for(int d=0; d<3; d++) lo[d] = g.range(-20, 50);
    LBox w = lworld(lo, n); w.order = lorder(g); std::unique_ptr<box3d<index>> phw(new box3d<index>(H<index>(w))); auto set_hw = [&](){ phw.reset(new box3d<index>(H<index>(w))); };
    int what = g.below(9);
    c.desc << (sizeof(index) == 8 ? "idx64 " : "idx32 ") << "world=" << w.str() << " "; c.nontrivial = w.count() > 1;
    static const char *nm[] = {"split_world", "make_procgrid", "make_procgrid2d", "min_surface", "make_pencils", "make_slabs", "box-utilities", "world_complete", "split_remap"};
    c.label(nm[what]); c.desc << nm[what];
    // the bounds of any single count keep int indexes meaningful
    switch(what){
        case 0: {
            std::array<int,3> q; for(int d=0; d<3; d++) q[d] = g.range(1, g.chance(1, 6) ? 9 : (int) std::min<long long>(n[d], 9));
            if (g.chance(1, 4)){ // very long dimensions and many processes: the bounds are exact as long as the extents fit the index type
                c.label("long"); long long top = sizeof(index) == 4 ? 2147483600ll : (1ll << 42); bool any = false;
                for(int d=0; d<3; d++) if (g.chance(1, 2) or (d == 2 and not any)){ any = true; n[d] = g.chance(1, 2) ? top - 100 - g.below(1000) : top / (1 + g.below(2000)) - 100; q[d] = g.chance(1, 2) ? g.range(2, 60) : g.pick({2, 3, 7, 8, 16, 31, 64, 128}); }
                while(q[0] * q[1] * q[2] > 400) for(int d=0; d<3; d++) if (q[d] > 2) q[d] = q[d] * 2 / 3;
                { auto o = w.order; w = lworld(lo, n); w.order = o; } set_hw(); c.desc << " world=" << w.str(); }
            c.desc << " procs=" << q[0] << "x" << q[1] << "x" << q[2]; pbt::publish(c);
            auto v = LV(split_world(*phw, q)); need((int) v.size() == q[0] * q[1] * q[2], "split_world returned " + std::to_string(v.size()) + " boxes");
            std::string e = not_partition(v, w); need(e.empty(), "split_world: " + e);
            for(int d=0; d<3; d++){ need(imbalance(v, d) <= 1, "split_world: extents in dimension " + std::to_string(d) + " differ by more than one: " + list(v)); need((long long) intervals(v, d).size() == std::min<long long>(q[d], n[d]), "split_world: dimension " + std::to_string(d) + " has the wrong number of intervals: " + list(v)); }
            for(auto const &b : v) need(b.order == w.order, "split_world lost the order");
            break; }
        case 1: {
            int p = g.chance(1, 3) ? g.range(1, 5000) : g.range(1, 130); c.desc << " n=" << p; pbt::publish(c); c.nontrivial = p > 1;
            auto r = make_procgrid(p); need(r[0] > 0 and r[1] > 0 and r[0] * r[1] == p, "make_procgrid is not a factorisation: " + std::to_string(r[0]) + "x" + std::to_string(r[1]));
            int best = p + 1; for(int i=1; i<=p; i++) if (p % i == 0) best = std::min(best, i + p / i);
            need(r[0] + r[1] == best, "make_procgrid is not the most square factorisation: " + std::to_string(r[0]) + "x" + std::to_string(r[1]));
            auto f = get_factors(p); std::set<std::array<int,2>> got(f.begin(), f.end()), exp; for(int i=1; i<=p; i++) if (p % i == 0) exp.insert({i, p / i}); need(got == exp, "get_factors is not the set of factorisations");
            break; }
        case 2: {
            int p = g.range(1, 72); std::vector<std::array<int,2>> fs; for(int i=1; i<=p; i++) if (p % i == 0) fs.push_back({i, p / i}); auto cand = g.pick(fs); int dir = g.below(3);
            c.desc << " dir=" << dir << " candidate=" << cand[0] << "x" << cand[1]; pbt::publish(c);
            int a = dir == 0 ? 1 : 0, b = dir == 2 ? 1 : 2; bool possible = fits2(p, n[a], n[b]); bool refused = false; std::array<int,3> r{{0,0,0}};
            try { r = make_procgrid2d(*phw, dir, cand); } catch(std::runtime_error &){ refused = true; }
            if (refused){ need(not possible, "make_procgrid2d refused although a valid processor grid exists"); c.label("refused"); break; }
            need(r[dir] == 1 and r[a] > 0 and r[b] > 0 and r[a] * r[b] == p, "make_procgrid2d is not a factorisation with one process in the direction");
            need(r[a] <= n[a] and r[b] <= n[b], "make_procgrid2d is larger than the world");
            if (cand[0] <= n[a] and cand[1] <= n[b]) need(r[a] == cand[0] and r[b] == cand[1], "make_procgrid2d ignored a valid candidate");
            break; }
        case 3: {
            int p = g.chance(1, 2) ? g.range(1, 24) : g.range(1, 300);
            if (sizeof(index) == 4) for(int d=0; d<3; d++) if (n[d] > 8000){ n[d] = 8000; w = lworld(lo, n); }
            c.desc << " n=" << p; pbt::publish(c);
            long long bs = -1; auto surf = [&](int i, int j, int k){ long long x = n[0] / i, y = n[1] / j, z = n[2] / k; return (wide) x * y + (wide) y * z + (wide) x * z; };
            wide best = -1; for(int i=1; i<=p; i++) if (p % i == 0 and i <= n[0]) for(int j=1; j<=p/i; j++) if ((p / i) % j == 0 and j <= n[1]){ int k = p / i / j; if (k <= n[2]){ wide s = surf(i, j, k); if (best < 0 or s < best) best = s; } }
            (void) bs; if (best < 0){ c.label("no-fit"); c.nontrivial = false; break; } // documented precondition: the grid can be split
            auto r = proc_setup_min_surface(H<index>(w), p);
            need(r[0] > 0 and r[1] > 0 and r[2] > 0 and r[0] * r[1] * r[2] == p, "proc_setup_min_surface is not a factorisation");
            need(r[0] <= n[0] and r[1] <= n[1] and r[2] <= n[2], "proc_setup_min_surface is larger than the world");
            need(surf(r[0], r[1], r[2]) == best, "proc_setup_min_surface returned " + std::to_string(r[0]) + "x" + std::to_string(r[1]) + "x" + std::to_string(r[2]) + " which does not have the minimal surface");
            break; }
        case 4: case 5: {
            int p = g.range(1, 16); w.lo = {{0,0,0}}; w.hi = {{n[0]-1, n[1]-1, n[2]-1}}; box3d<index> const hw = H<index>(w);
            while(w.count() < p) p--; 
            std::vector<LBox> src; if (p == 1) src.push_back(w); else src = lpartition(g, n, p);
            int used = p; rank_remap remap(0); if (p > 1 and g.chance(1, 4)){ used = g.range(1, p - 1); remap.set_subranks(p, used); }
            std::array<int,3> ord = lorder(g);
            c.desc << " p=" << p << " used=" << used << " source=" << list(src); c.label(used < p ? "remap" : "no-remap");
            if (what == 4){
                int d = g.below(3); auto q = make_procgrid(used); bool flip = g.chance(1, 3); if (flip) std::swap(q[0], q[1]); c.desc << " dimension=" << d; pbt::publish(c);
                bool whole = true; for(auto const &b : src) if (b.size(d) != n[d]) whole = false;
                int a = (d + 1) % 3, b = (d + 2) % 3; bool possible = whole or fits2(used, n[a], n[b]); std::vector<LBox> v;
                try { v = LV(make_pencils(hw, q, d, HV<index>(src), ord, remap)); } catch(std::runtime_error &){ need(not possible, "make_pencils refused although pencils exist"); c.label("refused"); break; }
                need((int) v.size() == p, "make_pencils returned the wrong number of boxes"); std::string e = not_partition(v, w); need(e.empty(), "make_pencils: " + e);
                int busy = 0; for(auto const &x : v) if (not x.empty()){ busy++; need(x.size(d) == n[d], "make_pencils: box " + x.str() + " is not whole in dimension " + std::to_string(d)); need(x.order == ord, "make_pencils: wrong order"); }
                if (not whole){ need(busy <= used, "make_pencils uses more than the requested processes"); for(int k=0; k<3; k++) if (k != d) need(imbalance(v, k) <= 1, "make_pencils: extents in dimension " + std::to_string(k) + " differ by more than one"); }
                else for(int k=0; k<p; k++) need(same(v[k], src[k]), "make_pencils moved boxes that already are pencils");
            }else{
                int d1 = g.below(3), d2 = (d1 + 1 + g.below(2)) % 3, o = 3 - d1 - d2; c.desc << " dimensions=" << d1 << d2; pbt::publish(c);
                auto v = LV(make_slabs(hw, used, d1, d2, HV<index>(src), ord, remap));
                need((int) v.size() == p, "make_slabs returned the wrong number of boxes"); std::string e = not_partition(v, w); need(e.empty(), "make_slabs: " + e);
                int busy = 0; for(auto const &x : v) if (not x.empty()){ busy++; need(x.size(d1) == n[d1] and x.size(d2) == n[d2], "make_slabs: box " + x.str() + " is not whole"); need(x.order == ord, "make_slabs: wrong order"); }
                need(busy <= used, "make_slabs uses more than the requested processes"); need(imbalance(v, o) <= 1, "make_slabs: extents differ by more than one");
            }
            break; }
        case 6: {
            auto rbox = [&](){ LBox b; for(int d=0; d<3; d++){ b.lo[d] = lo[d] + (n[d] > 1000000 ? (long long) g.below(1000) * (n[d] / 1000) : (long long) g.below((uint32_t) n[d])); long long room = n[d] - (b.lo[d] - lo[d]); b.hi[d] = b.lo[d] + (room > 1000000 ? (long long) g.below(1000) * (room / 1000) : (long long) g.below((uint32_t) room)); } b.order = lorder(g); if (g.chance(1, 8)){ b.lo = {{0,0,0}}; b.hi = {{-1,-1,-1}}; } return b; };
            LBox a = rbox(), b = g.chance(1, 6) ? a : rbox(); c.desc << " a=" << a.str() << " b=" << b.str(); pbt::publish(c);
            auto ha = H<index>(a), hb = H<index>(b); LBox m = (a.empty() or b.empty()) ? LBox() : meet(a, b), r = L(ha.collide(hb));
            need(m.empty() == r.empty(), "collide: wrong emptiness " + r.str()); need(same(m, r), "collide is not the intersection: " + r.str()); if (not m.empty()) need(r.order == a.order, "collide lost the order");
            need(ha.empty() == a.empty() and (wide) ha.count() == a.count(), "count or empty is wrong: " + std::to_string((long long) ha.count()));
            need((ha == hb) == (a.lo == b.lo and a.hi == b.hi) and (ha != hb) == not (a.lo == b.lo and a.hi == b.hi), "box comparison is wrong");
            need(ha.ordered_same_as(hb) == (a.order == b.order), "order comparison is wrong");
            for(int d=0; d<3; d++){ need(ha.order[ha.find_order(d)] == d, "find_order is not the inverse of the order"); need(ha.osize(d) == a.size(a.order[d]), "osize is wrong"); need(ha.size[d] == a.size(d), "size is wrong"); }
            if (not a.empty()) need(ha.is2d() == (a.size(0) == 1 or a.size(1) == 1 or a.size(2) == 1), "is2d is wrong");
            for(int d=0; d<3; d++){ LBox h = L(ha.r2c(d)); if (a.empty()) need(h.empty(), "r2c of an empty box is not empty"); else { LBox e = a; e.hi[d] = a.lo[d] + a.size(d) / 2; need(same(h, e) and h.order == a.order, "r2c box is wrong: " + h.str()); } }
            if (not a.empty()) for(int d=0; d<3; d++){ // strides of lines; the counts are of type int
                wide st = d == a.order[0] ? 1 : (d == a.order[1] ? (wide) a.size(a.order[0]) : (wide) a.size(a.order[0]) * a.size(a.order[1]));
                wide hm = d == a.order[0] ? (wide) a.size(a.order[1]) * a.size(a.order[2]) : (d == a.order[1] ? (wide) a.size(a.order[0]) : (wide) a.size(a.order[0]) * a.size(a.order[1]));
                if (st < (1ll << 31) and hm < (1ll << 31)){ need(fft1d_get_stride(ha, d) == (int) st, "stride of lines is wrong"); need(fft1d_get_howmany(ha, d) == (int) hm, "number of lines is wrong"); }
            }
            { std::array<int,2> o2 = g.chance(1, 2) ? std::array<int,2>{{1, 0}} : std::array<int,2>{{0, 1}}; // two dimensional boxes are boxes of one plane
              std::array<index,2> l2{{(index) a.lo[0], (index) a.lo[1]}}, h2{{(index) a.hi[0], (index) a.hi[1]}}; box3d<index> p2(l2, h2), q2(l2, h2, o2);
              LBox e = a; e.lo[2] = e.hi[2] = 0; need(L(p2).lo == e.lo and L(p2).hi == e.hi and L(p2).order == (std::array<int,3>{{0, 1, 2}}), "two dimensional box is wrong"); need(L(q2).lo == e.lo and L(q2).hi == e.hi and L(q2).order == (std::array<int,3>{{o2[0], o2[1], 2}}), "two dimensional box with order is wrong"); }
            // shapes
            int p = g.range(1, 8); while(w.count() < p) p--; L3 zero3{{0,0,0}}; LBox w0 = lworld(zero3, n); std::vector<LBox> s; if (p == 1) s.push_back(w0); else s = lpartition(g, n, p); auto hs = HV<index>(s); auto hw0 = H<index>(w0);
            need(same(L(find_world(hs)), w0), "find_world is not the bounding box");
            for(int d=0; d<3; d++){ bool pen = true; for(auto const &x : s) pen = pen and x.size(d) == n[d]; need(is_pencils(hw0, hs, d) == pen, "is_pencils is wrong"); need(pencil_directions(hw0, hs)[d] == pen, "pencil_directions is wrong");
                for(int e=0; e<3; e++) if (e != d){ bool sl = true; for(auto const &x : s) sl = sl and x.size(d) == n[d] and x.size(e) == n[e]; need(is_slab(hw0, hs, d, e) == sl, "is_slab is wrong"); } }
            std::vector<LBox> t = s; if (p > 1 and g.chance(1, 2)) std::swap(t[0], t[p-1]); auto ht = HV<index>(t); bool eq = true; for(int i=0; i<p; i++) if (t[i].lo != s[i].lo or t[i].hi != s[i].hi) eq = false; need(match(hs, ht) == eq, "match is wrong");
            long long cc = 0; for(auto const &x : s) if (not meet(a, x).empty() and not a.empty()) cc++; need(count_connections(std::vector<box3d<index>>{ha}, hs) == cc, "count_connections is wrong");
            std::array<int,3> no = lorder(g); auto ro = LV(reorder(hs, no)); for(int i=0; i<p; i++) need(same(ro[i], s[i]) and ro[i].order == no, "reorder is wrong");
            break; }
        case 7: {
            int p = g.range(1, 10); while(w.count() < p) p--; L3 zero3{{0,0,0}}; LBox w0 = lworld(zero3, n); std::vector<LBox> s; if (p == 1) s.push_back(w0); else s = lpartition(g, n, p);
            int mut = g.below(5); int k = g.below(p), d = g.below(3);
            switch(mut){ // 0 nothing 1 shrink 2 grow 3 duplicate 4 drop to empty
                case 1: if (s[k].size(d) > 1){ if (g.chance(1, 2)) s[k].hi[d]--; else s[k].lo[d]++; } break;
                case 2: if (s[k].hi[d] + 1 < n[d]) s[k].hi[d]++; else if (s[k].lo[d] > 0) s[k].lo[d]--; break;
                case 3: if (p > 1) s[k] = s[(k + 1) % p]; break;
                case 4: s[k].lo = {{0,0,0}}; s[k].hi = {{-1,-1,-1}}; break;
                default: break; }
            c.desc << " boxes=" << list(s); pbt::publish(c); bool good = not_partition(s, w0).empty(), said = false; c.label(good ? "complete" : "incomplete");
            try { said = world_complete(HV<index>(s), H<index>(w0)); } catch(std::invalid_argument &){ said = false; }
            need(said == good, good ? "world_complete rejected a partition" : "world_complete accepted boxes that are no partition: " + not_partition(s, w0));
            break; }
        default: {
            std::array<int,3> q; for(int d=0; d<3; d++) q[d] = g.range(1, (int) std::min<long long>(n[d], 3)); int used = q[0] * q[1] * q[2], p = used + g.range(0, 4);
            rank_remap remap(0); remap.set_subranks(p, used); if (g.chance(1, 2)) for(size_t i=remap.map.size(); i>1; i--) std::swap(remap.map[i-1], remap.map[g.below((uint32_t) i)]);
            c.desc << " procs=" << q[0] << "x" << q[1] << "x" << q[2] << " map="; for(int m : remap.map) c.desc << m << ","; pbt::publish(c);
            auto plain = LV(split_world(*phw, q)), v = LV(split_world(*phw, q, remap)); need((int) v.size() == p, "remapped split has the wrong number of boxes");
            std::string e = not_partition(v, w); need(e.empty(), "remapped split: " + e);
            for(int i=0; i<p; i++) if (remap.map[i] < 0) need(v[i].empty(), "a rank without a share got a box"); else need(same(v[i], plain[remap.map[i]]), "a rank got the wrong box");
            break; }
    }
}
static void c10(Gen &g, Case &c){ if (g.chance(1, 3)) geometry<long long>(g, c, g.chance(1, 2)); else geometry<int>(g, c, false); }

// ---- C11 -----------------------------------------------------------------------------------------------------------
template<typename index> void plan_prop(Gen &g, Case &c, bool big){
    using namespace heffte;
    int p = g.weighted({1, 6}) == 0 ? 1 : g.range(2, 16); L3 n;
    bool large = not big and g.chance(1, 6); if (large){ n = gen_large(g); c.label("large"); } else if (big) n = gen_size(g, true); else { int cls = g.below(5); for(int d=0; d<3; d++) n[d] = gen_dim(g, cls, 1, 30); if (g.chance(1, 8)) n[g.below(3)] = 1; }
    int r2c = g.chance(1, 2) ? g.below(3) : -1; L3 m = n; if (r2c >= 0) m[r2c] = n[r2c] / 2 + 1;
    while((wide) n[0] * n[1] * n[2] < p or (wide) m[0] * m[1] * m[2] < p) p--;
    L3 z{{0,0,0}}; LBox win = lworld(z, n), wout = lworld(z, m);
    ioboxes<index> io; std::vector<LBox> bi, bo; std::array<int,3> oi = lorder(g), oo = g.chance(1, 2) ? oi : lorder(g);
    bi = lpartition(g, n, p); for(auto &b : bi) b.order = oi;
    if (g.chance(1, 5)){ // output geometry follows the input
        bo = bi; if (r2c >= 0){ bool whole = true; for(auto &b : bi) whole = whole and b.size(r2c) == n[r2c]; if (whole) for(auto &b : bo) b.hi[r2c] = m[r2c] - 1; else bo = lpartition(g, m, p); }
    }else bo = lpartition(g, m, p);
    for(auto &b : bo) b.order = oo;
    io.in = HV<index>(bi); io.out = HV<index>(bo);
    PlanOpts po; po.algorithm = g.below(4); po.pencils = not g.chance(1, 2); po.reorder = not g.chance(1, 2); if (g.chance(1, 3)) po.subranks = g.range(1, p + 2);
    plan_options opts(po.reorder, reshape_algorithm::alltoallv, po.pencils); if (po.subranks > 0) opts.use_num_subranks(po.subranks);
    c.desc << (sizeof(index) == 8 ? "idx64 " : "") << "grid=" << str(n) << " r2c=" << r2c << " ranks=" << p << (po.pencils ? " pencils" : " slabs") << (po.reorder ? " reorder" : " strided") << " sub=" << po.subranks << " in=" << list(bi) << " out=" << list(bo);
    c.label(po.pencils ? "pencils" : "slabs"); c.label(po.reorder ? "reorder" : "strided"); c.label(r2c >= 0 ? "r2c" : "c2c"); if (big) c.label("huge"); pbt::publish(c);
    int eff = (po.subranks > 0 and po.subranks < p) ? po.subranks : p; bool sub = eff < p; if (sub) c.label("subranks");
    int me = g.below(p), other = g.below(p);
    bool guaranteed = true; // non-empty pencils exist in every direction of both worlds
    for(auto const &q : {n, m}) for(int d=0; d<3; d++) if (not fits2(eff, q[(d+1)%3], q[(d+2)%3])) guaranteed = false;
    if (not po.pencils) for(auto const &q : {n, m}) for(int d=0; d<3; d++) if (q[d] < eff and not (n[0] == 1 or n[1] == 1 or n[2] == 1)) guaranteed = false;
    std::unique_ptr<logic_plan3d<index>> pl, pl2;
    try { pl.reset(new logic_plan3d<index>(plan_operations<index>(io, r2c, opts, me))); }
    catch(std::runtime_error &e){ need(not guaranteed, std::string("plan creation refused a valid problem: ") + e.what()); c.label("refused"); return; }
    pl2.reset(new logic_plan3d<index>(plan_operations<index>(io, r2c, opts, other)));
    c.nontrivial = p > 1;
    for(int i=0; i<4; i++){
        need(pl->in_shape[i].size() == (size_t) p and pl->out_shape[i].size() == (size_t) p, "stage " + std::to_string(i) + " has the wrong number of boxes");
        for(int r=0; r<p; r++) for(int s=0; s<2; s++){
            LBox a = L(s ? pl->out_shape[i][r] : pl->in_shape[i][r]), b = L(s ? pl2->out_shape[i][r] : pl2->in_shape[i][r]);
            need(same(a, b) and (a.empty() or a.order == b.order), "processes disagree on stage " + std::to_string(i));
        }
    }
    need(pl->fft_direction == pl2->fft_direction, "processes disagree on the directions");
    auto show = [&](int i){ return " (stage " + std::to_string(i) + ": " + list(LV(pl->in_shape[i])) + " -> " + list(LV(pl->out_shape[i])) + ")"; };
    for(int r=0; r<p; r++){
        need(same(L(pl->in_shape[0][r]), bi[r]) and L(pl->in_shape[0][r]).order == bi[r].order, "the plan does not start from the user's input boxes" + show(0));
        need(same(L(pl->out_shape[3][r]), bo[r]) and L(pl->out_shape[3][r]).order == bo[r].order, "the plan does not end at the user's output boxes" + show(3));
    }
    auto fd = pl->fft_direction; std::set<int> ds(fd.begin(), fd.end()); need(ds == std::set<int>({0, 1, 2}), "the directions are not a permutation of the dimensions: " + std::to_string(fd[0]) + "," + std::to_string(fd[1]) + "," + std::to_string(fd[2]));
    if (r2c >= 0) need(fd[0] == r2c, "the shortened dimension is not transformed first");
    for(int d=0; d<3; d++) need(pl->fft_sizes[d] == n[d], "wrong transform sizes");
    need((wide) pl->index_count == win.count(), "wrong number of indexes");
    auto shortened = [&](LBox b){ if (r2c >= 0 and not b.empty()) b.hi[r2c] = b.lo[r2c] + b.size(r2c) / 2; return b; };
    for(int i=0; i<4; i++){
        auto in = LV(pl->in_shape[i]), out = LV(pl->out_shape[i]);
        LBox const &w = (i == 0) ? win : wout;
        std::string e = not_partition(in, w); need(e.empty(), "stage " + std::to_string(i) + " input: " + e); e = not_partition(out, w); need(e.empty(), "stage " + std::to_string(i) + " output: " + e);
        // one common storage order, which the exchange relies on
        for(auto const *v : {&in, &out}) { std::array<int,3> o{{-1,-1,-1}}; for(auto const &b : *v) if (not b.empty()){ if (o[0] < 0) o = b.order; need(o == b.order, "stage " + std::to_string(i) + " mixes storage orders"); } }
        if (i < 3){
            auto nxt = LV(pl->in_shape[i+1]);
            for(int r=0; r<p; r++){ LBox a = (i == 0) ? shortened(out[r]) : out[r]; need(same(nxt[r], a) and (a.empty() or nxt[r].order == a.order), "stage " + std::to_string(i+1) + " does not start where stage " + std::to_string(i) + " ends" + show(i) + show(i+1)); }
            for(auto const &b : out) if (not b.empty()){
                need(b.size(fd[i]) == w.size(fd[i]), "stage " + std::to_string(i) + " transforms dimension " + std::to_string(fd[i]) + " but box " + b.str() + " does not hold whole lines" + show(i));
                if (po.reorder) need(b.order[0] == fd[i], "stage " + std::to_string(i) + " transforms dimension " + std::to_string(fd[i]) + " on lines that are not contiguous although reordering is requested" + show(i));
            }
            if (sub){
                int busy = 0; bool is_user = true; for(int r=0; r<p; r++){ if (not out[r].empty()) busy++; }
                auto eq = [&](std::vector<LBox> const &u, std::vector<LBox> const &v, bool half){ for(int r=0; r<p; r++){ LBox a = u[r], b = v[r]; if (half and r2c >= 0){ a.lo[r2c] = b.lo[r2c] = 0; a.hi[r2c] = b.hi[r2c] = 0; } if (not same(a, b)) return false; } return true; };
                is_user = eq(out, bi, true) or eq(out, bo, true);
                need(busy <= eff or is_user, "stage " + std::to_string(i) + " introduced by the plan uses " + std::to_string(busy) + " processes instead of at most " + std::to_string(eff) + show(i));
            }
        }
    }
    auto grids = compute_grids(*pl); need(grids.size() == 5, "compute_grids returned the wrong number of stages");
    for(int i=0; i<5; i++){ auto v = i < 4 ? LV(pl->in_shape[i]) : LV(pl->out_shape[3]); bool holes = false; for(auto const &b : v) holes = holes or b.empty(); if (not holes) for(int d=0; d<3; d++) need((size_t) grids[i][d] == intervals(v, d).size(), "compute_grids is wrong at stage " + std::to_string(i)); }
}
static void c11(Gen &g, Case &c){ if (g.chance(1, 4)) plan_prop<long long>(g, c, false); else plan_prop<int>(g, c, false); }
static void c21g(Gen &g, Case &c){ if (g.chance(1, 3)) geometry<long long>(g, c, true); else plan_prop<long long>(g, c, true); }

// ---- C09 -----------------------------------------------------------------------------------------------------------
template<typename T> T stamp(long k){ return T((double) (k + 1)); }
template<typename T, typename index> void pack_typed(Gen &g, Case &c, char const *tname){
    using namespace heffte;
    // two distributions of one sub-box: a source box and a destination box with their own orders
    I3 n; long lim = 40000; int cls = g.below(4);
    for(int d=0; d<3; d++){ int hi = (int) std::min<long>(cls == 0 ? 6 : (cls == 1 ? 20 : 150), std::max<long>(1, lim)); n[d] = g.range(1, hi); if (cls == 3 and g.chance(1, 3)) n[d] = std::min(hi, (int) g.pick({16, 17, 31, 32, 33, 63, 64, 65, 128, 129})); lim = std::max<long>(1, lim / n[d]); }
    int rot = g.below(3); std::rotate(n.begin(), n.begin() + rot, n.end());
    Box sub; for(int d=0; d<3; d++){ sub.lo[d] = g.range(0, 7); sub.hi[d] = sub.lo[d] + n[d] - 1; }
    auto around = [&](){ Box b = sub; if (g.chance(3, 4)) for(int d=0; d<3; d++){ b.lo[d] -= g.range(0, std::min(sub.lo[d], 3)); b.hi[d] += g.range(0, 3); } b.order = gen_order(g); return b; };
    Box src = around(), dst = around(); int mode = g.below(4); if (mode < 2) dst.order = src.order;
    static const char *mn[] = {"direct-pack", "direct-unpack", "transpose-unpack", "overlap-map"};
    c.desc << tname << (sizeof(index) == 8 ? " idx64 " : " ") << mn[mode] << " sub=" << sub.str() << " src=" << src.str() << " dst=" << dst.str(); c.label(mn[mode]); pbt::publish(c);
    c.nontrivial = sub.count() > 1; if (n[0] * n[1] * n[2] > 4096) c.label("blocked");
    std::array<int,3> map{{-1,-1,-1}}; for(int j=0; j<3; j++) for(int k=0; k<3; k++) if (dst.order[k] == src.order[j]) map[j] = k;
    if (mode >= 2) c.label("map:" + std::to_string(map[0]) + std::to_string(map[1]) + std::to_string(map[2]));
    auto plan_for = [&](Box const &host, bool tr)->pack_plan_3d<index>{
        pack_plan_3d<index> q; for(int k=0; k<3; k++) q.size[k] = sub.size(host.order[k]);
        q.line_stride = host.size(host.order[0]); q.plane_stride = (index) host.size(host.order[0]) * host.size(host.order[1]); q.buff_line_stride = q.buff_plane_stride = 0; q.map = {{0,0,0}};
        if (tr){ q.buff_line_stride = sub.size(src.order[0]); q.buff_plane_stride = (index) sub.size(src.order[0]) * sub.size(src.order[1]); q.map = map; }
        return q; };
    Box ps = sub; ps.order = src.order; // the packed buffer: the sub-box in the source order
    I3 first = sub.lo;
    std::vector<T> buf(sub.count()); sub.order = src.order;
    auto id = [&](I3 const &p){ return ((long) p[2] * 250 + p[1]) * 250 + p[0]; };
    if (mode == 0){
        std::unique_ptr<T[]> data(new T[src.count()]), out(new T[sub.count()]); src.each([&](I3 const &p, long k){ data[k] = stamp<T>(id(p)); });
        std::vector<T> before(data.get(), data.get() + src.count());
        auto q = plan_for(src, false); if (g.chance(1, 2)) direct_packer<tag::cpu>().pack(nullptr, q, data.get() + src.offset(first), out.get()); else transpose_packer<tag::cpu>().pack(nullptr, q, data.get() + src.offset(first), out.get());
        ps.each([&](I3 const &p, long k){ if (not (out[k] == stamp<T>(id(p)))) fail("packing put the wrong element at position " + std::to_string(k) + ", expected the one of index " + pbt::str(p)); });
        for(long k=0; k<src.count(); k++) if (not (data[k] == before[k])) fail("packing changed its source");
        return;
    }
    ps.each([&](I3 const &p, long k){ buf[k] = stamp<T>(id(p)); });
    std::unique_ptr<T[]> out(new T[dst.count()]), in(new T[sub.count()]); std::copy(buf.begin(), buf.end(), in.get()); for(long k=0; k<dst.count(); k++) out[k] = T(-7.0);
    if (mode == 1) direct_packer<tag::cpu>().unpack(nullptr, plan_for(dst, false), in.get(), out.get() + dst.offset(first));
    else if (mode == 2) transpose_packer<tag::cpu>().unpack(nullptr, plan_for(dst, true), in.get(), out.get() + dst.offset(first));
    else {
        // the plan made by the library for a destination box and the boxes of the processes; sub must be the overlap
        Box s2 = sub; s2.order = src.order; std::vector<heffte::box3d<index>> boxes; int me = g.below(3), np = 3;
        for(int i=0; i<np; i++) boxes.push_back(heffte::box3d<index>({0,0,0}, {-1,-1,-1}, {src.order[0], src.order[1], src.order[2]}));
        int owner = g.below(3); std::vector<heffte::box3d<index>> bx; for(int i=0; i<np; i++) bx.push_back(i == owner ? heffte::box3d<index>({(index) s2.lo[0], (index) s2.lo[1], (index) s2.lo[2]}, {(index) s2.hi[0], (index) s2.hi[1], (index) s2.hi[2]}, {src.order[0], src.order[1], src.order[2]}) : boxes[i]);
        heffte::box3d<index> hd({(index) dst.lo[0], (index) dst.lo[1], (index) dst.lo[2]}, {(index) dst.hi[0], (index) dst.hi[1], (index) dst.hi[2]}, {dst.order[0], dst.order[1], dst.order[2]});
        std::vector<int> proc, offset, sizes; std::vector<pack_plan_3d<index>> plans; compute_overlap_map_transpose_pack<index>(me, np, hd, bx, proc, offset, sizes, plans);
        if (proc.size() != 1 or proc[0] != owner or plans.size() != 1 or offset.size() != 1 or sizes.size() != 1) fail("the overlap map does not name exactly the owner");
        if (sizes[0] != sub.count()) fail("the overlap map reports " + std::to_string(sizes[0]) + " elements instead of " + std::to_string(sub.count()));
        transpose_packer<tag::cpu>().unpack(nullptr, plans[0], in.get(), out.get() + offset[0]);
    }
    dst.each([&](I3 const &p, long k){
        bool inside = sub.has(p); T e = inside ? stamp<T>(id(p)) : T(-7.0);
        if (not (out[k] == e)) fail(inside ? "unpacking put the wrong element at index " + pbt::str(p) : "unpacking wrote outside the sub-box at index " + pbt::str(p)); });
    for(long k=0; k<sub.count(); k++) if (not (in[k] == buf[k])) fail("unpacking changed its source");
}
static void c09(Gen &g, Case &c){
    // index stamps must be exact in the type: float holds integers below 2^24, indexes are below 160 per dimension -> use a smaller code for float
    bool w = g.chance(1, 3);
    switch(g.below(4)){
        case 0: if (w) pack_typed<double, long long>(g, c, "double"); else pack_typed<double, int>(g, c, "double"); break;
        case 1: if (w) pack_typed<std::complex<double>, long long>(g, c, "complex-double"); else pack_typed<std::complex<double>, int>(g, c, "complex-double"); break;
        case 2: if (w) pack_typed<float, long long>(g, c, "float"); else pack_typed<float, int>(g, c, "float"); break;
        default: if (w) pack_typed<std::complex<float>, long long>(g, c, "complex-float"); else pack_typed<std::complex<float>, int>(g, c, "complex-float"); break;
    }
}
int main(int argc, char **argv){
    return pbt::run(argc, argv, {{"c09", c09, 80000, 1500000}, {"c10", c10, 800000, 4000000}, {"c11", c11, 100000, 2500000}, {"c21g", c21g, 60000, 1500000}});
}
