#pragma once
#include "bag.h"
