// Stand-in: the boost names the code under contract uses, as the standard ones.
#pragma once
#include <memory>
#include <optional>
namespace boost {
using std::shared_ptr;
using std::make_shared;
using std::optional;
}
