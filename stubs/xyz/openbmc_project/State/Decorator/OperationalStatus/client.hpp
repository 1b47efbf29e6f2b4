#pragma once
#include "xyz/openbmc_project/State/Decorator/OperationalStatus/common.hpp"
