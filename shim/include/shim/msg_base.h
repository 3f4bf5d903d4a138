#include <ros/serialization.h>
