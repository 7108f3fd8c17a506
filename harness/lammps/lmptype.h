#include "lmp_mock.h"
