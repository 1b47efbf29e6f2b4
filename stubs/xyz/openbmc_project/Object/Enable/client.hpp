#pragma once
#include "xyz/openbmc_project/Object/Enable/common.hpp"
