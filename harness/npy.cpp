// C08, see npy_impl.h
#include "npy_impl.h"
#define ALL(M)                                                                                                                  \
  switch (rng.below(10)) {                                                                                                      \
  case 0:                                                                                                                       \
    return M(int8_t);                                                                                                           \
  case 1:                                                                                                                       \
    return M(uint8_t);                                                                                                          \
  case 2:                                                                                                                       \
    return M(int16_t);                                                                                                          \
  case 3:                                                                                                                       \
    return M(uint16_t);                                                                                                         \
  case 4:                                                                                                                       \
    return M(int32_t);                                                                                                          \
  case 5:                                                                                                                       \
    return M(uint32_t);                                                                                                         \
  case 6:                                                                                                                       \
    return M(int64_t);                                                                                                          \
  case 7:                                                                                                                       \
    return M(uint64_t);                                                                                                         \
  case 8:                                                                                                                       \
    return M(float);                                                                                                            \
  default:                                                                                                                      \
    return M(double);                                                                                                           \
  }
VP_SCENARIO(growth, 2) {
  switch (rng.below(3)) {
  case 0:
    return growing<int16_t>(rng);
  case 1:
    return growing<float>(rng);
  default:
    return growing<double>(rng);
  }
}
VP_SCENARIO(malformedFiles, 4) {
  switch (rng.below(3)) {
  case 0:
    return malformed<uint8_t>(rng);
  case 1:
    return malformed<int32_t>(rng);
  default:
    return malformed<double>(rng);
  }
}
VP_SCENARIO(wrongTypes, 1) {
  switch (rng.below(5)) {
  case 0:
    return wrongType<double, int64_t>(rng);
  case 1:
    return wrongType<int32_t, float>(rng);
  case 2:
    return wrongType<uint16_t, int16_t>(rng);
  case 3:
    return wrongType<int8_t, uint8_t>(rng);
  default:
    return wrongType<float, double>(rng);
  }
}
VP_SCENARIO(missingFiles, 1) {
  vp::ScratchDir dir;
  auto           path = dir.path + "/none";
  if (rng.chance(0.5)) {
    spit(path, "");
  }
  VP_THROWS(Euclid::NdArray::readNpy<double>(boost::filesystem::path(path)), "unchecked-truncation", "missing or empty file read");
  VP_THROWS(Euclid::NdArray::mmapNpy<double>(boost::filesystem::path(path)), "unchecked-truncation", "missing or empty file mapped");
  vp::cover("missing_files");
}
VP_SCENARIO(numpy, 1) {
  if (idx % 25) {
    return;
  }
  vp::ScratchDir   dir;
  std::vector<int> types;
  {
    std::ofstream list(dir.path + "/list");
    for (int i = 0; i < 40; ++i) {
      auto saved = rng;
      types.push_back(rng.below(10));
      rng = saved;
#define M4(T) forNumpy<T>(rng, dir.path, list, i)
      [&] { ALL(M4) }();
    }
  }
  spit(dir.path + "/check.py", PY);
  std::string out = dir.path + "/out";
  int         rc  = std::system(("python3-vt " + dir.path + "/check.py " + dir.path + " >" + out + " 2>&1").c_str());
  auto        txt = slurp(out);
  if (rc != 0 && txt.find("instead of") == std::string::npos && txt.find("format.py") == std::string::npos) {
    vp::cover("numpy_unavailable");
    return;
  }
  VP_CHECK(rc == 0, "numpy-disagrees", txt);
  for (int i = 0; i < 40; ++i) {
    switch (types[i]) {
#define CASE(N, T)                                                                                                              \
  case N:                                                                                                                       \
    fromNumpy<T>(dir.path, i);                                                                                                  \
    break
      CASE(0, int8_t);
      CASE(1, uint8_t);
      CASE(2, int16_t);
      CASE(3, uint16_t);
      CASE(4, int32_t);
      CASE(5, uint32_t);
      CASE(6, int64_t);
      CASE(7, uint64_t);
      CASE(8, float);
      CASE(9, double);
    }
  }
  vp::cover("numpy_exchanged", 40);
}
VP_MAIN()
