// C08: round trips of some types, see npy_impl.h
#include "npy_impl.h"
VP_SCENARIO(roundtripsB, 1) {
  switch (rng.below(3)) {
  case 0:
    return roundtrip<uint8_t>(rng);
  case 1:
    return roundtrip<int32_t>(rng);
  default:
    return roundtrip<float>(rng);
  }
}
