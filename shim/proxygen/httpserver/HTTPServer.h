#pragma once
#include <simweb.h>
