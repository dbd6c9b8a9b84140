#include "w32api.h"
