#pragma once
#include <rosstub/core.h>
