// instantiates header templates so that their bodies can be extracted
#include "cantera/base/utilities.h"
namespace inst {
double p3(double x, double* c) { return Cantera::poly3(x, c); }
double p4(double x, double* c) { return Cantera::poly4(x, c); }
double p5(double x, double* c) { return Cantera::poly5(x, c); }
double p6(double x, double* c) { return Cantera::poly6(x, c); }
double p8(double x, double* c) { return Cantera::poly8(x, c); }
double d4(const std::vector<double>& x, const std::vector<double>& y) { return Cantera::dot4(x, y) + Cantera::dot5(x, y); }
double dd(const double* a, const double* b, const double* c) { return Cantera::dot(a, b, c); }
void sc(const double* a, const double* b, double* c, double f) { Cantera::scale(a, b, c, f); }
}
