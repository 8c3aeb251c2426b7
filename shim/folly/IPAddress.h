#pragma once
#include <simnet.h>
