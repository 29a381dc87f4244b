// @ C01
#include "spec.h"
#include <delynoi/models/polygon/Triangle.h>
// the circumcentre is at the same distance from the three vertices
double lhs_ctor2_AB(std::vector<int> ix, std::vector<Point>& p){ Triangle t(ix, p); return dist2(t.getCircumcenter(), p[ix[0]]); }
double rhs_ctor2_AB(std::vector<int> ix, std::vector<Point>& p){ Triangle t(ix, p); return dist2(t.getCircumcenter(), p[ix[1]]); }
double lhs_ctor2_AC(std::vector<int> ix, std::vector<Point>& p){ Triangle t(ix, p); return dist2(t.getCircumcenter(), p[ix[0]]); }
double rhs_ctor2_AC(std::vector<int> ix, std::vector<Point>& p){ Triangle t(ix, p); return dist2(t.getCircumcenter(), p[ix[2]]); }
double lhs_ctorU_AB(std::vector<int> ix, std::vector<Point>& p, UniqueList<Point> c){ Triangle t(ix, p, c); return dist2(t.getCircumcenter(), p[ix[0]]); }
double rhs_ctorU_AB(std::vector<int> ix, std::vector<Point>& p, UniqueList<Point> c){ Triangle t(ix, p, c); return dist2(t.getCircumcenter(), p[ix[1]]); }
double lhs_ctorU_AC(std::vector<int> ix, std::vector<Point>& p, UniqueList<Point> c){ Triangle t(ix, p, c); return dist2(t.getCircumcenter(), p[ix[0]]); }
double rhs_ctorU_AC(std::vector<int> ix, std::vector<Point>& p, UniqueList<Point> c){ Triangle t(ix, p, c); return dist2(t.getCircumcenter(), p[ix[2]]); }
double lhs_ctorV_AB(std::vector<int> ix, std::vector<Point>& p, std::vector<Point> c){ Triangle t(ix, p, c); return dist2(t.getCircumcenter(), p[ix[0]]); }
double rhs_ctorV_AB(std::vector<int> ix, std::vector<Point>& p, std::vector<Point> c){ Triangle t(ix, p, c); return dist2(t.getCircumcenter(), p[ix[1]]); }
double lhs_ctorV_AC(std::vector<int> ix, std::vector<Point>& p, std::vector<Point> c){ Triangle t(ix, p, c); return dist2(t.getCircumcenter(), p[ix[0]]); }
double rhs_ctorV_AC(std::vector<int> ix, std::vector<Point>& p, std::vector<Point> c){ Triangle t(ix, p, c); return dist2(t.getCircumcenter(), p[ix[2]]); }
// it is a usable point, and it does not depend on how the vertices are listed
bool lhs_valid(std::vector<int> ix, std::vector<Point>& p){ Triangle t(ix, p); return t.getCircumcenter().isValid(); }
bool rhs_valid(std::vector<int> ix, std::vector<Point>& p){ return true; }
Point lhs_order(int a, int b, int c, std::vector<Point>& p){ Triangle t({a,b,c}, p); return t.getCircumcenter(); }
Point rhs_order(int a, int b, int c, std::vector<Point>& p){ Triangle t({b,a,c}, p); return t.getCircumcenter(); }
Point lhs_cycle(int a, int b, int c, std::vector<Point>& p){ Triangle t({a,b,c}, p); return t.getCircumcenter(); }
Point rhs_cycle(int a, int b, int c, std::vector<Point>& p){ Triangle t({b,c,a}, p); return t.getCircumcenter(); }
// registering it in a list returns the position where the list keeps it
int lhs_regU(std::vector<int> ix, std::vector<Point>& p, UniqueList<Point>& c){ Triangle t(ix, p, c); return t.getCircumcenterIndex(); }
int rhs_regU(std::vector<int> ix, std::vector<Point>& p, UniqueList<Point>& c){ Triangle t(ix, p); Point cc = t.getCircumcenter(); return c.push_back(cc); }
int lhs_regV(std::vector<int> ix, std::vector<Point>& p, std::vector<Point>& c){ Triangle t(ix, p, c); return t.getCircumcenterIndex(); }
int rhs_regV(std::vector<int> ix, std::vector<Point>& p, std::vector<Point>& c){ Triangle t(ix, p); int n = c.size(); c.push_back(t.getCircumcenter()); return n; }
int lhs_reg0(std::vector<int> ix, std::vector<Point>& p){ Triangle t(ix, p); return t.getCircumcenterIndex(); }
int rhs_reg0(std::vector<int> ix, std::vector<Point>& p){ return -1; }
// the other two constructors describe the same triangle
std::vector<int> lhs_pts2(std::vector<int> ix, std::vector<Point>& p){ return Triangle(ix, p).getPoints(); }
std::vector<int> rhs_pts2(std::vector<int> ix, std::vector<Point>& p){ return ix; }
std::vector<int> lhs_ptsU(std::vector<int> ix, std::vector<Point>& p, UniqueList<Point> c){ return Triangle(ix, p, c).getPoints(); }
std::vector<int> rhs_ptsU(std::vector<int> ix, std::vector<Point>& p, UniqueList<Point> c){ return ix; }
std::vector<int> lhs_ptsV(std::vector<int> ix, std::vector<Point>& p, std::vector<Point> c){ return Triangle(ix, p, c).getPoints(); }
std::vector<int> rhs_ptsV(std::vector<int> ix, std::vector<Point>& p, std::vector<Point> c){ return ix; }
