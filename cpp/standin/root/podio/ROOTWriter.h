#pragma once
#include "podio/ROOTReader.h"
namespace podio {
class ROOTWriter : public fakeroot::WriterBase<true> {
  using WriterBase::WriterBase;
};
} // namespace podio
