#pragma once
#include "sdbusplus/bus.hpp"
#include "sdbusplus/message.hpp"
#include "sdbusplus/server/manager.hpp"
#include "sdbusplus/server/object.hpp"
