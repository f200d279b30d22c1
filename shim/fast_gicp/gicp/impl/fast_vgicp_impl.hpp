#pragma once
#include <fast_gicp/gicp/fast_gicp.hpp>
