#include "standin.hpp"
