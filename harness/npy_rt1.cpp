// C08: round trips of some types, see npy_impl.h
#include "npy_impl.h"
VP_SCENARIO(roundtripsA, 1) {
  switch (rng.below(4)) {
  case 0:
    return roundtrip<int8_t>(rng);
  case 1:
    return roundtrip<uint16_t>(rng);
  case 2:
    return roundtrip<uint64_t>(rng);
  default:
    return roundtrip<double>(rng);
  }
}
