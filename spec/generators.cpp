// @ C13
// USE opq::fx opq::fy
#include "contracts.h"
#include <delynoi/models/generator/PointGenerator.h>
#include <delynoi/models/generator/functions/functions.h>
#include <delynoi/models/generator/noise/noise.h>
#include <delynoi/models/polygon/BoundingBox.h>
// functors of any kind: uninterpreted values, the arguments they are asked for are recorded in order
namespace opq { inline double fx(double x){ return x; } inline double fy(double y){ return y; } }
class RecX : public Functor { public: std::vector<double> seen; double apply(double x){ seen.push_back(x); return opq::fx(x); } };
class RecY : public Functor { public: std::vector<double> seen; double apply(double y){ seen.push_back(y); return opq::fy(y); } };
static inline double gx(BoundingBox b, int j, int nx){ return b.xMin() + (nx > 1 ? j*((b.xMax()-b.xMin())/(nx-1)) : 0); }
static inline double gy(BoundingBox b, int i, int ny){ return b.yMin() + (ny > 1 ? i*((b.yMax()-b.yMin())/(ny-1)) : 0); }
// two functors: each coordinate is the functor's value at the grid coordinate; rows from bottom to top, each from left to right
void lhs_g_both(std::vector<Point>& v, BoundingBox b, int nx, int ny){ PointGenerator g(new RecX(), new RecY()); g.generate(v, b, nx, ny); }
void rhs_g_both(std::vector<Point>& v, BoundingBox b, int nx, int ny){
    for (int i=0;i<ny;i++) for (int j=0;j<nx;j++) v.push_back(Point(opq::fx(gx(b,j,nx)), opq::fy(gy(b,i,ny))));
}
void lhs_g_x(std::vector<Point>& v, BoundingBox b, int nx, int ny){ PointGenerator g(new RecX(), functions::independent_variable::x); g.generate(v, b, nx, ny); }
void rhs_g_x(std::vector<Point>& v, BoundingBox b, int nx, int ny){
    for (int i=0;i<ny;i++) for (int j=0;j<nx;j++) v.push_back(Point(gx(b,j,nx), gy(b,i,ny) + opq::fx(gx(b,j,nx))));
}
void lhs_g_y(std::vector<Point>& v, BoundingBox b, int nx, int ny){ PointGenerator g(new RecY(), functions::independent_variable::y); g.generate(v, b, nx, ny); }
void rhs_g_y(std::vector<Point>& v, BoundingBox b, int nx, int ny){
    for (int i=0;i<ny;i++) for (int j=0;j<nx;j++) v.push_back(Point(gx(b,j,nx) + opq::fy(gy(b,i,ny)), gy(b,i,ny)));
}
// the functors are asked in the order of the points
std::vector<double> lhs_g_orderX(BoundingBox b, int nx, int ny){ std::vector<Point> v; RecX* f = new RecX(); PointGenerator g(f, new RecY()); g.generate(v, b, nx, ny); return f->seen; }
std::vector<double> rhs_g_orderX(BoundingBox b, int nx, int ny){ std::vector<double> r; for (int i=0;i<ny;i++) for (int j=0;j<nx;j++) r.push_back(gx(b,j,nx)); return r; }
std::vector<double> lhs_g_orderY(BoundingBox b, int nx, int ny){ std::vector<Point> v; RecY* f = new RecY(); PointGenerator g(new RecX(), f); g.generate(v, b, nx, ny); return f->seen; }
std::vector<double> rhs_g_orderY(BoundingBox b, int nx, int ny){ std::vector<double> r; for (int i=0;i<ny;i++) for (int j=0;j<nx;j++) r.push_back(gy(b,i,ny)); return r; }
void lhs_g_one(){ PointGenerator g(new RecX(), functions::independent_variable::both); }
void rhs_g_one(){ throw std::invalid_argument(""); }
// @ C14
// USE
double lhs_f_constant(double x){ return functions::constant()->apply(x); }
double rhs_f_constant(double x){ return x; }
double lhs_f_uniform(double d, double x){ return functions::uniform(d)->apply(x); }
double rhs_f_uniform(double d, double x){ return d*x; }
double lhs_f_sine(double a, double f, double p, double x){ return functions::sine(a,f,p)->apply(x); }
double rhs_f_sine(double a, double f, double p, double x){ return a*std::sin(M_PI*f*x + M_PI*p/180); }
double lhs_f_cosine(double a, double f, double p, double x){ return functions::cosine(a,f,p)->apply(x); }
double rhs_f_cosine(double a, double f, double p, double x){ return a*std::cos(M_PI*f*x + M_PI*p/180); }
// displace_points: every other call is displaced, starting with the first, whatever the coordinates
std::vector<double> lhs_f_displace(double d, double a, double b, double c, double e){ Functor* f = functions::displace_points(d); std::vector<double> r; r.push_back(f->apply(a)); r.push_back(f->apply(b)); r.push_back(f->apply(c)); r.push_back(f->apply(e)); return r; }
std::vector<double> rhs_f_displace(double d, double a, double b, double c, double e){ std::vector<double> r; r.push_back(a + d/2); r.push_back(b); r.push_back(c + d/2); r.push_back(e); return r; }
// two displacing functors do not influence each other
std::vector<double> lhs_f_displace2(double d, double h, double a, double b){ Functor* f = functions::displace_points(d); Functor* g = functions::displace_points(h); std::vector<double> r; r.push_back(f->apply(a)); r.push_back(g->apply(b)); r.push_back(f->apply(a)); r.push_back(g->apply(b)); return r; }
std::vector<double> rhs_f_displace2(double d, double h, double a, double b){ std::vector<double> r; r.push_back(a + d/2); r.push_back(b + h/2); r.push_back(a); r.push_back(b); return r; }
// constantAlternating over a grid with rows of two and of three different coordinates
std::vector<double> lhs_f_alt2(double a, double b){
    assume(a != b);
    Functor* f = functions::constantAlternating(); std::vector<double> r;
    for (int i=0;i<4;i++){ r.push_back(f->apply(a)); r.push_back(f->apply(b)); }
    return r;
}
std::vector<double> rhs_f_alt2(double a, double b){
    assume(a != b);
    double d = std::abs(a-b)/2; std::vector<double> r;
    for (int i=0;i<4;i++){ r.push_back(i%2 == 1 ? a + d : a); r.push_back(i%2 == 1 ? b + d : b); }
    return r;
}
std::vector<double> lhs_f_alt3(double a, double h){
    assume(h > 0);
    Functor* f = functions::constantAlternating(); std::vector<double> r;
    for (int i=0;i<4;i++){ r.push_back(f->apply(a)); r.push_back(f->apply(a+h)); r.push_back(f->apply(a+2*h)); }
    return r;
}
std::vector<double> rhs_f_alt3(double a, double h){
    assume(h > 0);
    double d = std::abs(h)/2; std::vector<double> r;
    for (int i=0;i<4;i++){ double e = i%2 == 1 ? d : 0; r.push_back(a + e); r.push_back(a + h + e); r.push_back(a + 2*h + e); }
    return r;
}

// random values stay in their interval, whatever the coordinate; noise moves by an amount of the interval, either way
bool holds_f_rnd(double a, double b, double x){ assume(a <= b); return drawnWithin(functions::random_double(a,b)->apply(x), a, b); }
bool holds_f_rndi(double a, double b, double x){ assume(a <= b); return drawnWithin(functions::random_integer(a,b)->apply(x), (int)a, (int)b); }
bool holds_f_noise(double a, double b, double x, double d){ assume(a <= b); double v = noise::random_double_noise(functions::uniform(d),a,b)->apply(x); return drawnWithin(v - d*x, a, b) || drawnWithin(d*x - v, a, b); }
bool holds_f_noisei(double a, double b, double x, double d){ assume(a <= b); double v = noise::random_integer_noise(functions::uniform(d),a,b)->apply(x); return drawnWithin(v - d*x, (int)a, (int)b) || drawnWithin(d*x - v, (int)a, (int)b); }
