#include <pcl/io/pcd_io.h>
