#include <dynamic-graph/entity.h>
