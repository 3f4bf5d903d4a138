#include <xmlrpcpp/XmlRpcValue.h>
