// instantiates the class template of include/async.hxx, so that clang's AST holds its bodies for a concrete type;
// nothing in this file is verified
#include "async.hxx"
using namespace cornerstone;
template class cornerstone::async_result<unsigned long>;
void vcg_use(async_result<unsigned long>& r, async_result<unsigned long>::handler_type& h, unsigned long& v, ptr<std::exception>& e)
{
    r.when_ready(h);
    r.set_result(v, e);
}
