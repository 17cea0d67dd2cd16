#pragma once
#include <aslam/backend/Expressions.hpp>
