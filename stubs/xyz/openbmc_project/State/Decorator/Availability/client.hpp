#pragma once
#include "xyz/openbmc_project/State/Decorator/Availability/common.hpp"
