#include "include/vsk.h"
