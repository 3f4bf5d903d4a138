#include <pcl/common/transforms.h>
#include <pcl_conversions/pcl_conversions.h>
