#pragma once
#include "podio/ROOTReader.h"
namespace podio {
class RNTupleWriter : public fakeroot::WriterBase<false> {
  using WriterBase::WriterBase;
};
} // namespace podio
