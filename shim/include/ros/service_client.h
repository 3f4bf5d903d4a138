#include <shim/core.h>
