#include "bcrypt.h"
