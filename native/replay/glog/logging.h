#pragma once
#include "raw_logging.h"
