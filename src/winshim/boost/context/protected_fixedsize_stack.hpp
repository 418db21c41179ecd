// What the library's dispatching header of this name does on Windows.
#include <boost/context/windows/protected_fixedsize_stack.hpp>
