// The FITS reader cannot be built here (no CCfits); Configuration refers to it. These members throw if ever reached.
#include "Table/FitsReader.h"
#include <stdexcept>
namespace Euclid {
namespace Table {
namespace {
[[noreturn]] void no() {
  throw std::runtime_error("FITS support is not part of the monitored build");
}
const CCfits::HDU& noHdu() {
  no();
}
}  // namespace
FitsReader::FitsReader(const CCfits::HDU& hdu) : m_hdu(hdu) {
  no();
}
FitsReader::FitsReader(const std::string&, int) : m_hdu(noHdu()) {}
FitsReader::FitsReader(const std::string&, const std::string&) : m_hdu(noHdu()) {}
FitsReader& FitsReader::fixColumnNames(std::vector<std::string>) {
  no();
}
const ColumnInfo& FitsReader::getInfo() {
  no();
}
std::string FitsReader::getComment() {
  no();
}
void FitsReader::skip(long) {
  no();
}
bool FitsReader::hasMoreRows() {
  no();
}
std::size_t FitsReader::rowsLeft() {
  no();
}
Table FitsReader::readImpl(long) {
  no();
}
}  // namespace Table
}  // namespace Euclid
