#include <tbb/tbb_mc.hpp>
