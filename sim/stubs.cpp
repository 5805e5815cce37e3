// Symbols the library expects its application to provide.
#include <stdlib.h>
#include <stingraykit/factory/Factory.h>
namespace stingray { __attribute__((weak)) void Factory::RegisterTypes(const FactoryContextPtr&) { } }
extern "C" void __real_abort() { abort(); }
