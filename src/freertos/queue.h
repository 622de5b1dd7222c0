#include "semphr.h"
