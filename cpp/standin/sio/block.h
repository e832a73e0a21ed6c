#pragma once
#include "version.h"
namespace sio {
class block {
public:
  block(const std::string& name, version_type version) : m_name(name), m_version(version) {}
  block(const block&) = delete;
  block& operator=(const block&) = delete;
  virtual ~block() = default;
  const std::string& name() const { return m_name; }
  version_type version() const { return m_version; }
  virtual void read(read_device& device, version_type version) = 0;
  virtual void write(write_device& device) = 0;

private:
  std::string m_name;
  version_type m_version;
};
} // namespace sio
