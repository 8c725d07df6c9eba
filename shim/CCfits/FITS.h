#include <CCfits/CCfits>
