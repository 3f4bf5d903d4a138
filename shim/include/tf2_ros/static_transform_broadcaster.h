#include <tf2_ros/transform_broadcaster.h>
