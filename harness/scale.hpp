// Larger meshes on top of the enumerated universe.
#pragma once
#include "shapes.hpp"
#include "universe.hpp"
