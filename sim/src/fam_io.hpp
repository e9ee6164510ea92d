#pragma once
#include "family.hpp"
namespace sim {
Family stream_family();
Family pandora_family();
Family dag_family();
Family stages_family();
}
