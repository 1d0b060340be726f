#pragma once
#include "grpcpp/grpcpp.h"
