#include <dynamic-graph/logger.h>
#include <dynamic-graph/real-time-logger-def.h>
