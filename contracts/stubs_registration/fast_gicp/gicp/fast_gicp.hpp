// Stand-in for the header of this name.
#pragma once
#include "pcl/registration/registration_options.h"
