// @ C24
// USE
#include "contracts.h"
#include <delynoi/config/DelynoiConfig.h>
#include <delynoi/models/hole/CircularHole.h>
#include <delynoi/models/polygon/Circle.h>
#include <sstream>
#include <iomanip>
struct Settings { int grade; double tolerance; int scale; int precision; };
static Settings settings(DelynoiConfig* c){ Settings s; s.grade = c->getDiscretizationGrade(); s.tolerance = c->getTolerance(); s.scale = c->getScale(); s.precision = c->getPrecision(); return s; }
static Settings settings(){ return settings(DelynoiConfig::instance()); }
// a setting keeps the value it was given last, for everybody, and no other setting changes
Settings lhs_cf_grade(int v){ DelynoiConfig* c = DelynoiConfig::instance(); c->setDiscretizationGrade(v); return settings(); }
Settings rhs_cf_grade(int v){ Settings s = settings(); s.grade = v; DelynoiConfig::instance()->setDiscretizationGrade(v); return s; }
Settings lhs_cf_tolerance(double v){ DelynoiConfig* c = DelynoiConfig::instance(); c->setTolerance(v); return settings(); }
Settings rhs_cf_tolerance(double v){ Settings s = settings(); s.tolerance = v; DelynoiConfig::instance()->setTolerance(v); return s; }
Settings lhs_cf_scale(int v){ DelynoiConfig* c = DelynoiConfig::instance(); c->setScale(v); return settings(); }
Settings rhs_cf_scale(int v){ Settings s = settings(); s.scale = v; DelynoiConfig::instance()->setScale(v); return s; }
Settings lhs_cf_precision(int v){ DelynoiConfig* c = DelynoiConfig::instance(); c->setPrecision(v); return settings(); }
Settings rhs_cf_precision(int v){ Settings s = settings(); s.precision = v; DelynoiConfig::instance()->setPrecision(v); return s; }
Settings lhs_cf_twice(double a, int b, double c){ DelynoiConfig::instance()->setTolerance(a); DelynoiConfig::instance()->setScale(b); DelynoiConfig::instance()->setTolerance(c); return settings(); }
Settings rhs_cf_twice(double a, int b, double c){ Settings s = settings(); s.tolerance = c; s.scale = b; DelynoiConfig::instance()->setScale(b); DelynoiConfig::instance()->setTolerance(c); return s; }
// the named precisions are their numbers of digits
std::vector<int> lhs_cf_named(int x){
    std::vector<int> r; DelynoiConfig* c = DelynoiConfig::instance();
    c->setPrecision(Precision::precision::small); r.push_back(c->getPrecision());
    c->setPrecision(Precision::precision::mid); r.push_back(c->getPrecision());
    c->setPrecision(Precision::precision::large); r.push_back(c->getPrecision());
    c->setPrecision(x); return r;
}
std::vector<int> rhs_cf_named(int x){ std::vector<int> r; r.push_back(6); r.push_back(10); r.push_back(16); DelynoiConfig::instance()->setPrecision(x); return r; }
// what uses a setting uses its value at the time of use
std::string lhs_cf_text(Point p, int v){ DelynoiConfig::instance()->setPrecision(v); return p.getString(); }
std::string rhs_cf_text(Point p, int v){ DelynoiConfig::instance()->setPrecision(v); std::stringstream s; s << std::fixed << std::setprecision(v) << p.getX() << " " << p.getY(); return s.str(); }
bool lhs_cf_equal(Point p, Point q, double v){ DelynoiConfig::instance()->setTolerance(v); return p == q; }
bool rhs_cf_equal(Point p, Point q, double v){ DelynoiConfig::instance()->setTolerance(v); return std::abs(p.getX() - q.getX()) < v && std::abs(p.getY() - q.getY()) < v; }
int lhs_cf_arc(Point c, double r, int v){ assume(v > 0); DelynoiConfig::instance()->setDiscretizationGrade(v); return delynoi_utilities::generateArcPoints(c, r, 0, 180).size(); }
int rhs_cf_arc(Point c, double r, int v){ assume(v > 0); DelynoiConfig::instance()->setDiscretizationGrade(v); return v + 1; }
// USE mode:fresh raw:DelynoiConfig::instance
// there is one configuration, which starts from the documented settings
std::vector<double> lhs_cf_one(double t, int v, int c, int p){
    std::vector<double> r; DelynoiConfig::instance()->setTolerance(t); DelynoiConfig::instance()->setDiscretizationGrade(v); DelynoiConfig::instance()->setScale(c); DelynoiConfig::instance()->setPrecision(p);
    r.push_back(DelynoiConfig::instance()->getTolerance()); r.push_back(DelynoiConfig::instance()->getDiscretizationGrade()); r.push_back(DelynoiConfig::instance()->getScale()); r.push_back(DelynoiConfig::instance()->getPrecision());
    return r;
}
std::vector<double> rhs_cf_one(double t, int v, int c, int p){ std::vector<double> r; r.push_back(t); r.push_back(v); r.push_back(c); r.push_back(p); return r; }
std::vector<double> lhs_cf_start(){
    std::vector<double> r; DelynoiConfig* c = DelynoiConfig::instance();
    r.push_back(c->getTolerance()); r.push_back(c->getDiscretizationGrade()); r.push_back(c->getScale()); r.push_back(c->getPrecision()); return r;
}
std::vector<double> rhs_cf_start(){ std::vector<double> r; r.push_back(0.00001); r.push_back(12); r.push_back(100000); r.push_back(6); return r; }
