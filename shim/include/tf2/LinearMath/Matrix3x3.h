#include <tf2/LinearMath/Vector3.h>
