// @ C08
// USE contract::IndexSegment__intersection contract::Point__operatorEQ opq::meets opq::along opq::same
#include "contracts.h"
bool lhs_c_crossing(Polygon q, std::vector<Point>& p){ return q.isSelfIntersecting(p); }
bool rhs_c_crossing(Polygon q, std::vector<Point>& p){ return contract::Polygon__isSelfIntersecting(q, p); }
// building or changing a polygon or a region from a ring that crosses itself is refused, any other ring is taken as it is
// USE contract::Polygon__isSelfIntersecting opq::crossing
#include <delynoi/models/Region.h>
static std::vector<int> upto(int n){ std::vector<int> v; for (int i=0;i<n;i++) v.push_back(i); return v; }
static void refuse(const std::vector<int>& ix, const std::vector<Point>& p){ if (opq::crossing(ix, p)) throw std::invalid_argument(""); }
std::vector<int> lhs_t_points(std::vector<Point> p){ Polygon q(p); return q.getPoints(); }
std::vector<int> rhs_t_points(std::vector<Point> p){ refuse(upto(p.size()), p); return upto(p.size()); }
std::vector<int> lhs_t_index(std::vector<int> ix, std::vector<Point> p){ Polygon q(ix, p); return q.getPoints(); }
std::vector<int> rhs_t_index(std::vector<int> ix, std::vector<Point> p){ refuse(ix, p); return ix; }
std::vector<int> lhs_t_indexKept(std::vector<int> ix, std::vector<Point> p){ assume(!opq::crossing(ix, p)); assume(!opq::crossing(std::vector<int>(), p)); Polygon q(ix, p); return q.getPoints(); }
std::vector<int> rhs_t_indexKept(std::vector<int> ix, std::vector<Point> p){ assume(!opq::crossing(ix, p)); assume(!opq::crossing(std::vector<int>(), p)); return ix; }
std::vector<int> lhs_t_mutate(Polygon q, std::vector<Point> p){ q.mutate(p); return q.getPoints(); }
std::vector<int> rhs_t_mutate(Polygon q, std::vector<Point> p){ refuse(upto(p.size()), p); return upto(p.size()); }
std::vector<Point> lhs_t_region(std::vector<Point> p){ Region r(p); return r.getRegionPoints(); }
std::vector<Point> rhs_t_region(std::vector<Point> p){ refuse(upto(p.size()), p); return p; }
std::vector<Point> lhs_t_regionMutate(std::vector<Point> p, std::vector<Point> o){ Region r; r.p = o; r.mutate(p); return r.getRegionPoints(); }
std::vector<Point> rhs_t_regionMutate(std::vector<Point> p, std::vector<Point> o){ refuse(upto(p.size()), p); return p; }
std::vector<Point> lhs_t_regionOf(Polygon q, std::vector<Point> p){ Region r(q, p); return r.getRegionPoints(); }
std::vector<Point> rhs_t_regionOf(Polygon q, std::vector<Point> p){
    std::vector<Point> ring; std::vector<int> ix = q.getPoints(); for (int i=0;i<ix.size();i++) ring.push_back(p[ix[i]]);
    refuse(upto(ring.size()), ring); return ring;
}
