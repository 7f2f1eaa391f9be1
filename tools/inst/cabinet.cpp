// instantiates the object storage of the C interface so that its member functions can be extracted
#include "cantera/numerics/Func1.h"
#include "clib/Cabinet.h"
template <> Cantera::Cabinet<Cantera::Func1>* Cantera::Cabinet<Cantera::Func1>::s_storage = nullptr;
namespace inst {
typedef Cantera::Cabinet<Cantera::Func1> C;
int all(std::shared_ptr<Cantera::Func1> f, int n) { C::add(f, n); C::del(n); C::at(n); C::clear(); C::reset(); C::as<Cantera::Sin1>(n); return C::size() + C::parent(n) + C::index(*f, n); }
}
