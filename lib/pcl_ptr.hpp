// For checks that need PCL but no ROS: the sources call boost::make_shared for PCL pointers, which are std's here.
#pragma once
#include <memory>
namespace boost {
using std::make_shared;
}
