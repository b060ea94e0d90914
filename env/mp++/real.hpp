#include <mp++/config.hpp>
