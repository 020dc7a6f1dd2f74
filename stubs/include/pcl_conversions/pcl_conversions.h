#pragma once
#include <rosstub/pcl_impl.h>
