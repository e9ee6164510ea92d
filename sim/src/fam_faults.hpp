#pragma once
#include "family.hpp"
namespace sim {
Family prefix_family();
Family timeout_family();
}
