// @ C15
#include "contracts.h"
#include <utilities/UniqueList.h>
// the abstract list: every item once, each known by the position where it is kept
template <class T> static int refPush(UniqueList<T>& u, T& x){
    auto it = u.map.find(x);
    if (it != u.map.end()) return it->second;
    int n = u.list.size();
    u.map.insert(std::make_pair(x, n)); u.list.push_back(x);
    return n;
}
int lhs_ul_pushI(UniqueList<int>& u, int& x){ return u.push_back(x); } // + C18 C19
int rhs_ul_pushI(UniqueList<int>& u, int& x){ return refPush<int>(u, x); }
int lhs_ul_pushD(UniqueList<double>& u, double& x){ return u.push_back(x); }
int rhs_ul_pushD(UniqueList<double>& u, double& x){ return refPush<double>(u, x); }
int lhs_ul_pushP(UniqueList<Point>& u, Point& x){ return u.push_back(x); } // + C18 C19
int rhs_ul_pushP(UniqueList<Point>& u, Point& x){ return refPush<Point>(u, x); }
std::vector<int> lhs_ul_listI(UniqueList<int>& u, std::vector<int>& v){ return u.push_list(v); }
std::vector<int> rhs_ul_listI(UniqueList<int>& u, std::vector<int>& v){ std::vector<int> r; for (int i=0;i<v.size();i++) r.push_back(u.push_back(v[i])); return r; }
std::vector<int> lhs_ul_listP(UniqueList<Point>& u, std::vector<Point>& v){ return u.push_list(v); } // + C18 C19
std::vector<int> rhs_ul_listP(UniqueList<Point>& u, std::vector<Point>& v){ std::vector<int> r; for (int i=0;i<v.size();i++) r.push_back(u.push_back(v[i])); return r; }
std::vector<int> lhs_ul_listU(UniqueList<int>& u, UniqueList<int>& v){ return u.push_list(v); }
std::vector<int> rhs_ul_listU(UniqueList<int>& u, UniqueList<int>& v){ std::vector<int> r; std::vector<int> w = v.getList(); for (int i=0;i<w.size();i++) r.push_back(u.push_back(w[i])); return r; }
// a re-pushed item is found where it was put, and adding never disturbs the others
int lhs_ul_again(UniqueList<int> u, int x){ u.push_back(x); return u.push_back(x); }
int rhs_ul_again(UniqueList<int> u, int x){ return u.push_back(x); }
int lhs_ul_againSize(UniqueList<int> u, int x){ u.push_back(x); u.push_back(x); return u.size(); }
int rhs_ul_againSize(UniqueList<int> u, int x){ u.push_back(x); return u.size(); }
bool holds_ul_has(UniqueList<int> u, int x){ u.push_back(x); return u.contains(x); }
int lhs_ul_size(UniqueList<int> u){ return u.size(); }
int rhs_ul_size(UniqueList<int> u){ return u.list.size(); }
bool lhs_ul_contains(UniqueList<int> u, int x){ return u.contains(x); }
bool rhs_ul_contains(UniqueList<int> u, int x){ return u.map.find(x) != u.map.end(); }
int lhs_ul_indexOf(UniqueList<int> u, int x){ return u.indexOf(x); }
int rhs_ul_indexOf(UniqueList<int> u, int x){ for (int i=0;i<u.list.size();i++) if (u.list[i] == x) return i; return -1; }
int lhs_ul_indexOfP(UniqueList<Point> u, Point x){ return u.indexOf(x); } // + C18
int rhs_ul_indexOfP(UniqueList<Point> u, Point x){ for (int i=0;i<u.list.size();i++) if (samePlace(u.list[i], x)) return i; return -1; }
int lhs_ul_at(UniqueList<int> u, int i){ return u[i]; }
int rhs_ul_at(UniqueList<int> u, int i){ return u.list[i]; }
std::vector<int> lhs_ul_get(UniqueList<int> u){ return u.getList(); }
std::vector<int> rhs_ul_get(UniqueList<int> u){ return u.list; }
std::vector<int> lhs_ul_cget(const UniqueList<int> u){ return u.getList(); }
std::vector<int> rhs_ul_cget(const UniqueList<int> u){ return u.list; }
bool lhs_ul_eq(UniqueList<int> u, UniqueList<int> v){ return u == v; }
bool rhs_ul_eq(UniqueList<int> u, UniqueList<int> v){ return u.list == v.list; }
bool lhs_ul_common(UniqueList<int> u, UniqueList<int> v){ return u.hasCommonElement(v); }
bool rhs_ul_common(UniqueList<int> u, UniqueList<int> v){ for (int i=0;i<v.list.size();i++) if (u.map.find(v.list[i]) != u.map.end()) return true; return false; }
void lhs_ul_clear(UniqueList<int>& u){ u.clear(); }
void rhs_ul_clear(UniqueList<int>& u){ u.list.clear(); u.map.clear(); }
int lhs_ul_clearPush(UniqueList<int> u, int x){ u.clear(); return u.push_back(x); }
int rhs_ul_clearPush(UniqueList<int> u, int x){ return 0; }
// removal keeps the order of the others and renumbers them
template <class T> static void renumber(UniqueList<T>& u){
    u.map.clear();
    for (int i=0;i<u.list.size();i++){ T e = u.list[i]; u.map.insert(std::make_pair(e, i)); }
}
void lhs_ul_popI(UniqueList<int>& u){ assume(u.size() > 0); u.pop_front(); }
void rhs_ul_popI(UniqueList<int>& u){ assume(u.size() > 0); u.list.erase(u.list.begin()); renumber<int>(u); }
void lhs_ul_popP(UniqueList<Point>& u){ assume(u.size() > 0); u.pop_front(); }
void rhs_ul_popP(UniqueList<Point>& u){ assume(u.size() > 0); u.list.erase(u.list.begin()); renumber<Point>(u); }
void lhs_ul_delI(UniqueList<int>& u, int x){ u.delete_element(x); }
void rhs_ul_delI(UniqueList<int>& u, int x){
    if (u.map.find(x) == u.map.end()) return;
    u.list.erase(u.list.begin() + u.map.find(x)->second); renumber<int>(u);
}
void lhs_ul_delP(UniqueList<Point>& u, Point x){ u.delete_element(x); }
void rhs_ul_delP(UniqueList<Point>& u, Point x){
    if (u.map.find(x) == u.map.end()) return;
    u.list.erase(u.list.begin() + u.map.find(x)->second); renumber<Point>(u);
}
void lhs_ul_copy(UniqueList<int>& o, UniqueList<int> u){ o = UniqueList<int>(u); }
void rhs_ul_copy(UniqueList<int>& o, UniqueList<int> u){ o.list = u.list; o.map = u.map; }
void lhs_ul_copyP(UniqueList<Point>& o, UniqueList<Point> u){ o = UniqueList<Point>(u); }
void rhs_ul_copyP(UniqueList<Point>& o, UniqueList<Point> u){ o.list = u.list; o.map = u.map; }
int lhs_ul_new(int x){ UniqueList<int> u; return u.size(); }
int rhs_ul_new(int x){ return 0; }
