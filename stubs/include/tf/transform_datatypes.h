#pragma once
#include <rosstub/tf_impl.h>
