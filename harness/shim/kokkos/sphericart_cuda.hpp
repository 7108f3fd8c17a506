#pragma once
// the CUDA variant is not built here
