#include <dynamic-graph/real-time-logger.h>
