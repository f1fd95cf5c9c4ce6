// stand-in for the system header of Sun compilers: harness/backend.hpp declares its functions
#pragma once
