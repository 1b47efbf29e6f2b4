#pragma once
#include "simbus/simbus.hpp"
