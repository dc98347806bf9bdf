#pragma once
#include <simvnx/vnx.h>
