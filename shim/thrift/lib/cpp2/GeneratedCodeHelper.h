#pragma once
#include <simproto.h>
