#pragma once
#include <fast_gicp/gicp/lsq_registration.hpp>
