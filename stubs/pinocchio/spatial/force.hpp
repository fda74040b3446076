#include <pinocchio/liegroup_stub.hpp>
