// C08: round trips of some types, see npy_impl.h
#include "npy_impl.h"
VP_SCENARIO(roundtripsC, 1) {
  switch (rng.below(3)) {
  case 0:
    return roundtrip<int16_t>(rng);
  case 1:
    return roundtrip<uint32_t>(rng);
  default:
    return roundtrip<int64_t>(rng);
  }
}
