// Vocabulary of the specification units. They are never compiled to code or run: the analysis reads them
// together with the library's sources and compares value graphs.
#ifndef SPEC_H
#define SPEC_H
#include <vector>
#include <string>
#include <map>
#include <unordered_map>
#include <algorithm>
#include <cmath>
#include <stdexcept>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <delynoi/config/DelynoiConfig.h>
#include <delynoi/models/basic/Point.h>
#include <delynoi/models/basic/PointSegment.h>
#include <delynoi/models/basic/IndexSegment.h>
void assume(bool);
bool drawnWithin(double v, double lo, double hi); // v is in [lo, hi] whatever random numbers it is made of
static inline double tol(){ return DelynoiConfig::instance()->getTolerance(); }
static inline bool near(double a, double b){ return std::abs(a-b) < tol(); }
static inline bool samePlace(const Point& a, const Point& b){ return near(a.getX(), b.getX()) && near(a.getY(), b.getY()); }
static inline double cross3(const Point& a, const Point& b, const Point& c){
    return (b.getX()-a.getX())*(c.getY()-a.getY()) - (b.getY()-a.getY())*(c.getX()-a.getX());
}
static inline double dist2(const Point& a, const Point& b){
    return (a.getX()-b.getX())*(a.getX()-b.getX()) + (a.getY()-b.getY())*(a.getY()-b.getY());
}
#endif
