#pragma once
#include <string>
struct TObject {
  virtual ~TObject() = default;
};
struct TKey : TObject {
  std::string name;
  explicit TKey(std::string n) : name(std::move(n)) {}
  const char* GetClassName() const { return name.c_str(); }
};
