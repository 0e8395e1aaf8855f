#include "axom/sidre/core/DataStore.hpp"
