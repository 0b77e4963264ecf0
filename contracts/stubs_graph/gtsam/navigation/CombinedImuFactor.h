#pragma once
#include <gtsam/all.h>
