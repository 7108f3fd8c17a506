#include "Kokkos_Core.hpp"
