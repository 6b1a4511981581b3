#include "s/a.h"
#include "s/s.h"
#include "m/m.h"
