#pragma once
#include "podio/ROOTReader.h"
namespace podio {
class RNTupleReader : public fakeroot::ReaderBase {
public:
  void openFile(const std::string& f) { openFiles({f}); }
  void openFiles(const std::vector<std::string>& f) { open("rntuple", f); }
};
} // namespace podio
