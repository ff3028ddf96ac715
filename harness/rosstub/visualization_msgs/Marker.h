#pragma once
#include "visualization_msgs/MarkerArray.h"
