#pragma once
#include "family.hpp"
namespace sim {
Family cli_family();
Family history_family();
}
