#include "adept.h"
