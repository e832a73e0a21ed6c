#pragma once
#include "definitions.h"
