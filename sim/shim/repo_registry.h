#pragma once
#include "spectator/registry.h"
