#include "wincrypt.h"
