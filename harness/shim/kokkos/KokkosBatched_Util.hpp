#include "KokkosBlas.hpp"
