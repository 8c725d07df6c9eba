// Stand-in for Elements::TempPath/TempDir/TempFile.
#ifndef VP_SHIM_ELEMENTS_TEMPORARY_H
#define VP_SHIM_ELEMENTS_TEMPORARY_H
#include <boost/filesystem.hpp>
#include <boost/filesystem/fstream.hpp>
#include <fstream>
#include <string>
namespace Elements {
class TempPath {
public:
  explicit TempPath(const std::string& motif = "vp-%%%%-%%%%-%%%%-%%%%", const std::string& = "")
      : m_path(boost::filesystem::temp_directory_path() / boost::filesystem::unique_path(motif.empty() ? "vp-%%%%-%%%%-%%%%-%%%%" : motif)) {}
  virtual ~TempPath() { boost::system::error_code e; boost::filesystem::remove_all(m_path, e); }
  TempPath(const TempPath&) = delete;
  TempPath& operator=(const TempPath&) = delete;
  boost::filesystem::path path() const { return m_path; }
  std::string motif() const { return ""; }
private:
  boost::filesystem::path m_path;
};
class TempDir : public TempPath {
public:
  explicit TempDir(const std::string& m = "", const std::string& k = "") : TempPath(m, k) { boost::filesystem::create_directories(path()); }
};
class TempFile : public TempPath {
public:
  explicit TempFile(const std::string& m = "", const std::string& k = "") : TempPath(m, k) { std::ofstream o(path().c_str()); }
};
}  // namespace Elements
#endif
